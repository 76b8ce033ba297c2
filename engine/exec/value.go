// Package exec symbolically executes Go SSA (golang.org/x/tools/go/ssa).
package exec

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"gosym/smt"
)

// Value is one Go value. Its meaning depends on the static type:
//
//	bool, integers, floats: N (bits), or P = *smt.Term when symbolic
//	string:                 P = *Str, nil for ""
//	pointer:                P = *Value, nil for nil
//	slice:                  P = *Slice, nil for nil
//	map/chan/func:          P = *Map / *Chan / *Closure
//	interface:              P = *Iface, nil for nil
//	struct, array, tuple:   P = *Agg
//	reflect.Value:          P = *RVal
type Value struct {
	N uint64
	P any
}

// Str is a string of known length; T[i] != nil where byte i is symbolic.
type Str struct {
	S string
	T []*smt.Term
}

type Slice struct{ A []Value }

type Agg struct{ E []Value }

type Iface struct {
	T *Type
	V Value
}

type Closure struct {
	Fn   *Func
	Free []Value
	Nat  func(m *M, args []Value) Value // native closure
}

type poisonT struct{ why string }

func poison(why string) Value { return Value{P: &poisonT{why}} }

func isPoison(v Value) (*poisonT, bool) {
	p, ok := v.P.(*poisonT)
	return p, ok
}

// Type is a canonical type.
type Type struct {
	ID    int
	T     types.Type
	U     types.Type // underlying
	meth  map[string]*Func
	fname map[string]int
	zeroV *Value
}

func (t *Type) String() string { return types.TypeString(t.T, nil) }

type Chan struct {
	Buf    []Value
	Cap    int
	Closed bool
	ID     int
}

func str(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: &Str{S: s}}
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func intV(i int64) Value   { return Value{N: uint64(i)} }
func fltV(f float64) Value { return Value{N: math.Float64bits(f)} }
func ptrV(p *Value) Value  { return Value{P: p} }
func termV(t *smt.Term) Value {
	if t.IsConst() {
		return Value{N: t.Val}
	}
	return Value{P: t}
}

func (v Value) term() *smt.Term {
	t, _ := v.P.(*smt.Term)
	return t
}

func strLen(v Value) int {
	if v.P == nil {
		return 0
	}
	return len(v.P.(*Str).S)
}

// concStr returns the string if it is concrete.
func concStr(v Value) (string, bool) {
	if v.P == nil {
		return "", true
	}
	s, ok := v.P.(*Str)
	if !ok {
		panic(unsupported{fmt.Sprintf("string value expected, got %T", v.P)})
	}
	if s.T == nil {
		return s.S, true
	}
	return "", false
}

func strByte(v Value, i int) Value {
	s := v.P.(*Str)
	if s.T != nil && s.T[i] != nil {
		return Value{P: s.T[i]}
	}
	return Value{N: uint64(s.S[i])}
}

func substr(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	s := v.P.(*Str)
	if lo == 0 && hi == len(s.S) {
		return v
	}
	n := &Str{S: s.S[lo:hi]}
	if s.T != nil {
		for i := lo; i < hi; i++ {
			if s.T[i] != nil {
				n.T = s.T[lo:hi:hi]
				break
			}
		}
	}
	return Value{P: n}
}

func concat(a, b Value) Value {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	x, y := a.P.(*Str), b.P.(*Str)
	n := &Str{S: x.S + y.S}
	if x.T != nil || y.T != nil {
		n.T = make([]*smt.Term, len(n.S))
		copy(n.T, x.T)
		copy(n.T[len(x.S):], y.T)
	}
	return Value{P: n}
}

// strOfBytes builds a string from byte values.
func strOfBytes(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	var ts []*smt.Term
	for i, v := range b {
		if v.P == nil {
			bs[i] = byte(v.N)
			continue
		}
		t, ok := v.P.(*smt.Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("byte value expected, got %T", v.P)})
		}
		if ts == nil {
			ts = make([]*smt.Term, len(b))
		}
		ts[i] = t
	}
	return Value{P: &Str{S: unsafe.String(&bs[0], len(bs)), T: ts}}
}

func bytesOfStr(v Value) []Value {
	n := strLen(v)
	out := make([]Value, n)
	if n == 0 {
		return out
	}
	s := v.P.(*Str)
	for i := 0; i < n; i++ {
		if s.T != nil && s.T[i] != nil {
			out[i] = Value{P: s.T[i]}
		} else {
			out[i] = Value{N: uint64(s.S[i])}
		}
	}
	return out
}

func sliceOf(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case *Slice:
		return s.A
	case *poisonT:
		panic(unsupported{"poison slice: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("slice expected, got %T", v.P)})
}

func mkSlice(a []Value) Value { return Value{P: &Slice{a}} }

// concBytes returns the bytes of a []byte slice if all are concrete.
func concBytes(a []Value) ([]byte, bool) {
	out := make([]byte, len(a))
	for i, v := range a {
		if v.P != nil {
			return nil, false
		}
		out[i] = byte(v.N)
	}
	return out, true
}

func bytesVal(b []byte) Value {
	a := make([]Value, len(b))
	for i, c := range b {
		a[i].N = uint64(c)
	}
	return mkSlice(a)
}

func agg(v Value) []Value {
	a, ok := v.P.(*Agg)
	if !ok {
		if p, ok := v.P.(*poisonT); ok {
			panic(unsupported{"poison: " + p.why})
		}
		panic(unsupported{fmt.Sprintf("aggregate expected, got %T", v.P)})
	}
	return a.E
}

func tuple(vs ...Value) Value { return Value{P: &Agg{vs}} }

// copyVal returns a copy of v that shares no mutable storage at the value level.
func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		n := make([]Value, len(a.E))
		for i, e := range a.E {
			if _, ok := e.P.(*Agg); ok {
				n[i] = copyVal(e)
			} else {
				n[i] = e
			}
		}
		return Value{P: &Agg{n}}
	}
	return v
}

// show renders a value for diagnostics, following pointers to a small depth.
func show(v Value, d int) string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("%d", v.N)
	case *smt.Term:
		return "sym"
	case *Str:
		if p.T != nil {
			var sb strings.Builder
			for i := range p.S {
				if p.T[i] != nil {
					sb.WriteByte('?')
				} else {
					sb.WriteByte(p.S[i])
				}
			}
			return fmt.Sprintf("~%q", sb.String())
		}
		return fmt.Sprintf("%q", p.S)
	case *Value:
		if d <= 0 {
			return "&.."
		}
		return "&" + show(*p, d-1)
	case *Slice:
		if d <= 0 {
			return "[..]"
		}
		var ss []string
		for i, e := range p.A {
			if i > 8 {
				ss = append(ss, "..")
				break
			}
			ss = append(ss, show(e, d-1))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *Agg:
		if d <= 0 {
			return "{..}"
		}
		var ss []string
		for _, e := range p.E {
			ss = append(ss, show(e, d-1))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case *Iface:
		return p.T.String() + "(" + show(p.V, d-1) + ")"
	case *Closure:
		if p.Fn != nil {
			return "func " + p.Fn.Name
		}
		return "native func"
	case *poisonT:
		return "poison:" + p.why
	}
	return fmt.Sprintf("%T", v.P)
}

type unsupported struct{ why string }

func (u unsupported) Error() string { return "unsupported: " + u.why }
