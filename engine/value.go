package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program:
//
//	*Term            integers and booleans
//	float64          floats (concrete only), complex128
//	Str              strings
//	Struct, Array    aggregates (copied on assignment)
//	Slice            slices
//	*Map             maps
//	Ptr, SymPtr      pointers
//	Iface            interface values
//	*Closure         functions
//	Tuple            multiple results
//	*Native          engine-level opaque objects
type Value interface{}

// Str is a string: concrete when sym is nil.
type Str struct {
	s   string
	sym []*Term
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func (s Str) At(i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return mkByte(s.s[i])
}

func (s Str) Bytes() []*Term {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = mkByte(s.s[i])
	}
	return out
}

func (s Str) Slice(i, j int) Str {
	if s.sym != nil {
		return mkStr(s.sym[i:j])
	}
	return Str{s: s.s[i:j]}
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{sym: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return Str{s: string(bs)}
}

func (s Str) Concat(o Str) Str {
	if s.sym == nil && o.sym == nil {
		return Str{s: s.s + o.s}
	}
	b := make([]*Term, 0, s.Len()+o.Len())
	b = append(b, s.Bytes()...)
	b = append(b, o.Bytes()...)
	return mkStr(b)
}

func (s Str) String() string {
	if s.sym == nil {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.sym {
		if t.isConst() {
			sb.WriteByte(byte(t.val))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// Ptr points to a slot.
type Ptr = *Value

// SymPtr is a pointer to base[idx] with a symbolic (in-range) index.
type SymPtr struct {
	base []Value
	idx  *Term
}

// Iface is an interface value; T is nil for the nil interface.
type Iface struct {
	T types.Type
	V Value
}

// Closure is a function value.
type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(in *Interp, args []Value) Value
}

// Native is an engine-level object.
type Native struct {
	kind string
	x    interface{}
}

type mapEntry struct {
	k, v Value
	dead bool
}

// Map is an insertion-ordered map with possibly symbolic keys.
type Map struct {
	entries []*mapEntry
	idx     map[string]int // concrete keys
	symKeys int            // number of live entries with symbolic keys
	n       int
	keyT    types.Type
}

func newMap(kt types.Type) *Map { return &Map{idx: map[string]int{}, keyT: kt} }

// concreteKey renders a fully concrete key.
func concreteKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d:%d", x.w, x.val), true
		}
		return "", false
	case Str:
		if x.sym == nil {
			return "s" + x.s, true
		}
		return "", false
	case float64:
		return fmt.Sprintf("f%v", x), true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := concreteKey(x.V)
		return "I" + x.T.String() + "|" + k, ok
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case *Native:
		return fmt.Sprintf("n%p", x), true
	case Struct:
		return aggKey(x)
	case Array:
		return aggKey(x)
	}
	return "", false
}

func aggKey(vs []Value) (string, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := concreteKey(e)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d:%s,", len(k), k)
	}
	return sb.String(), true
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

func under(t types.Type) types.Type { return t.Underlying() }

// intWidth gives the width of an integer/bool type, or -1.
func intWidth(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// zero gives the zero value of a type.
func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w := intWidth(u); w >= 0 {
			return mkConst(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			_, agg1 := z.(Struct)
			_, agg2 := z.(Array)
			for i := range a {
				if agg1 || agg2 {
					a[i] = copyVal(z)
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero: %s", t))
}

// render gives a debugging / trace rendering of a value under a model (nil model: '?').
func render(v Value, m *Model) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		var val uint64
		if x.isConst() {
			val = x.val
		} else if m != nil {
			y, ok := m.eval(x)
			if !ok {
				return "?"
			}
			val = y
		} else {
			return "?"
		}
		if x.w == 0 {
			return fmt.Sprint(val == 1)
		}
		return fmt.Sprint(val)
	case Str:
		b := make([]byte, x.Len())
		for i := range b {
			t := x.At(i)
			if t.isConst() {
				b[i] = byte(t.val)
			} else if m != nil {
				y, ok := m.eval(t)
				if !ok {
					return "?"
				}
				b[i] = byte(y)
			} else {
				b[i] = '?'
			}
		}
		return fmt.Sprintf("%q", string(b))
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return render(x.V, m)
	case Slice:
		return renderList(x, m)
	case Array:
		return renderList(x, m)
	case Struct:
		return renderList(x, m)
	case Ptr:
		if x == nil {
			return "nil"
		}
		return "&" + fmt.Sprintf("%T", *x)
	case *Map:
		if x == nil {
			return "map[nil]"
		}
		var ks []string
		for _, e := range x.entries {
			if !e.dead {
				ks = append(ks, render(e.k, m)+":"+render(e.v, m))
			}
		}
		sort.Strings(ks)
		return "map[" + strings.Join(ks, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

func renderList(x []Value, m *Model) string {
	var ks []string
	for _, e := range x {
		ks = append(ks, render(e, m))
	}
	return "[" + strings.Join(ks, " ") + "]"
}
