package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"unsafe"

	"github.com/edwingeng/hotswap"
)

// Types from which exports and import fields are made.

type IfaceI interface{ M() string }
type IfaceJ interface{ N() string }

type T0 struct{ Tag string }

func (t *T0) M() string { return t.Tag }

type T1 struct {
	Tag string
	X   [3]int
}

func (t *T1) M() string { return t.Tag }
func (t *T1) N() string { return t.Tag }

type VT struct {
	A int
	S string
}
type MyInt int

// Err is an error that works without an object.
type Err struct{ Tag string }

func (e *Err) Error() string {
	if e == nil {
		return "nobody knows"
	}
	return e.Tag
}

type FN func() string
type NM map[string]string

// Emb is embedded to make anonymous fields.
type Emb struct{ Q int }
type emb struct{ Q int }

var fieldTypes = map[string]reflect.Type{
	"*T0":   reflect.TypeOf((*T0)(nil)),
	"*T1":   reflect.TypeOf((*T1)(nil)),
	"VT":    reflect.TypeOf(VT{}),
	"func":  reflect.TypeOf((func() string)(nil)),
	"FN":    reflect.TypeOf((FN)(nil)),
	"map":   reflect.TypeOf((map[string]string)(nil)),
	"NM":    reflect.TypeOf((NM)(nil)),
	"MyInt": reflect.TypeOf(MyInt(0)),
	"int":   reflect.TypeOf(0),
	"str":   reflect.TypeOf(""),
	"chan":  reflect.TypeOf((chan string)(nil)),
	"rchan": reflect.TypeOf((<-chan string)(nil)),
	"slice": reflect.TypeOf(([]string)(nil)),
	"I":     reflect.TypeOf((*IfaceI)(nil)).Elem(),
	"J":     reflect.TypeOf((*IfaceJ)(nil)).Elem(),
	"any":   reflect.TypeOf((*any)(nil)).Elem(),
	"*Err":  reflect.TypeOf((*Err)(nil)),
	"E":     reflect.TypeOf((*error)(nil)).Elem(),
	"**T0":  reflect.TypeOf((**T0)(nil)),
	"arr":   reflect.TypeOf([2]*T0{}),
	"Emb":   reflect.TypeOf(Emb{}),
	"emb":   reflect.TypeOf(emb{}),
}

// accepts says, from the Go specification's assignability rules and written
// out by hand, which field types can take a value of each export kind.
var accepts = map[string][]string{
	"*T0":   {"*T0", "I", "any"},
	"*T1":   {"*T1", "I", "J", "any"},
	"VT":    {"VT", "any"},
	"VT0":   {"VT", "any"},
	"func":  {"func", "FN", "any"},
	"FN":    {"FN", "func", "any"},
	"map":   {"map", "NM", "any"},
	"NM":    {"NM", "map", "any"},
	"MyInt": {"MyInt", "any"},
	"int":   {"int", "any"},
	"int0":  {"int", "any"},
	"str":   {"str", "any"},
	"str0":  {"str", "any"},
	"chan":  {"chan", "rchan", "any"},
	"slice": {"slice", "any"},
	"*Err":  {"*Err", "E", "any"},
	"map0":  {"map", "NM", "any"},
	"slic0": {"slice", "any"},
	"**T0":  {"**T0", "any"},
	"arr0":  {"arr", "any"},
}

var exportKinds = []string{"*T0", "*T1", "VT", "func", "FN", "map", "NM", "MyInt", "int", "int0", "str", "str0", "VT0", "chan", "slice", "*Err", "map0", "slic0", "**T0", "arr0"}
var nilExportKinds = []string{"nil", "nil*T0", "nil*T1", "nilfunc", "nilmap", "nilchan", "nilslice", "nil*Err"}
var allFieldKinds = []string{"*T0", "*T1", "VT", "func", "FN", "map", "NM", "MyInt", "int", "str", "chan", "rchan", "slice", "I", "J", "any", "*Err", "E", "**T0", "arr"}

func isNilExport(kind string) bool { return len(kind) >= 3 && kind[:3] == "nil" }

func assignable(exportKind, fieldKind string) bool {
	for _, k := range accepts[exportKind] {
		if k == fieldKind {
			return true
		}
	}
	return false
}

func makeExport(kind, tag string, n int) any {
	switch kind {
	case "*T0":
		return &T0{tag}
	case "*T1":
		return &T1{Tag: tag}
	case "VT":
		return VT{n, tag}
	case "VT0":
		return VT{}
	case "func":
		return func() string { return tag }
	case "FN":
		return FN(func() string { return tag })
	case "map":
		return map[string]string{"t": tag}
	case "NM":
		return NM{"t": tag}
	case "MyInt":
		return MyInt(n)
	case "int":
		return n
	case "int0":
		return 0
	case "str":
		return tag
	case "str0":
		return ""
	case "chan":
		return make(chan string, n%7+1)
	case "slice":
		return []string{tag}
	case "*Err":
		return &Err{tag}
	case "map0":
		return map[string]string{}
	case "slic0":
		return make([]string, 0, n%7+1)
	case "**T0":
		return new(*T0)
	case "arr0":
		return [2]*T0{}
	case "nil*Err":
		return (*Err)(nil)
	case "nil":
		return nil
	case "nil*T0":
		return (*T0)(nil)
	case "nil*T1":
		return (*T1)(nil)
	case "nilfunc":
		return (func() string)(nil)
	case "nilmap":
		return (map[string]string)(nil)
	case "nilchan":
		return (chan string)(nil)
	case "nilslice":
		return ([]string)(nil)
	}
	panic("export kind " + kind)
}

// sentinel makes a recognisable initial value for a field.
func sentinel(kind string) any {
	switch kind {
	case "*T0", "I", "any":
		return &T0{"sentinel"}
	case "*T1", "J":
		return &T1{Tag: "sentinel"}
	case "VT":
		return VT{-1, "sentinel"}
	case "func":
		return func() string { return "sentinel" }
	case "FN":
		return FN(func() string { return "sentinel" })
	case "map":
		return map[string]string{"t": "sentinel"}
	case "NM":
		return NM{"t": "sentinel"}
	case "MyInt":
		return MyInt(-1)
	case "int":
		return -1
	case "str":
		return "sentinel"
	case "chan":
		return make(chan string)
	case "rchan":
		return (<-chan string)(make(chan string))
	case "slice":
		return []string{"sentinel"}
	case "*Err", "E":
		return &Err{"sentinel"}
	case "**T0":
		x := &T0{"sentinel"}
		return &x
	case "arr":
		return [2]*T0{{"sentinel"}, nil}
	case "Emb":
		return Emb{7}
	case "emb":
		return emb{7}
	}
	panic("sentinel " + kind)
}

// sameValue reports whether two values are the same object (for reference
// kinds) or equal (for plain values).
func sameValue(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() != vb.Kind() {
		return false
	}
	switch va.Kind() {
	case reflect.Func:
		if va.IsNil() || vb.IsNil() {
			return va.IsNil() == vb.IsNil()
		}
		// closures: compare what they answer
		ra := va.Call(nil)[0].String()
		rb := vb.Call(nil)[0].String()
		return ra == rb
	case reflect.Map, reflect.Chan, reflect.Slice, reflect.Pointer, reflect.UnsafePointer:
		return va.Pointer() == vb.Pointer()
	default:
		return a == b
	}
}

// fieldValue reads a struct field, exported or not.
func fieldValue(structPtr reflect.Value, i int) any {
	f := structPtr.Elem().Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

func setField(structPtr reflect.Value, i int, v any) {
	f := structPtr.Elem().Field(i)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

// makeErr is the error a function fails with.
func makeErr(val int, tag string) (err error, tagged bool) {
	switch val % 12 {
	case 6:
		return hotswap.ErrNotExist, false
	case 7:
		return io.EOF, false
	case 8:
		return context.Canceled, false
	case 9:
		return (*Err)(nil), false // not nil, and an error like any other
	case 10:
		return errors.New(""), false
	case 11:
		return fmt.Errorf("%s: %w", tag, os.ErrNotExist), true
	}
	return errors.New(tag), true
}

type panicStruct struct{ Tag string }

func makePanic(val int, tag string) (v any, tagged bool) {
	switch val % 6 {
	case 0:
		return tag, true
	case 1:
		return errors.New(tag), true
	case 2:
		return panicStruct{tag}, true
	case 3:
		return fmt.Errorf("wrapped: %w", errors.New(tag)), true
	case 4:
		return 42, false
	default:
		return nil, false // a runtime error, raised by the caller
	}
}

// raise panics according to a fault.
func raise(f Fault, tag string) {
	v, _ := makePanic(f.Val, tag)
	if v == nil {
		var m map[string]int
		m[tag] = 1
	}
	panic(v)
}
