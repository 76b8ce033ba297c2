package exec

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gosym/smt"
)

// RVal models a reflect.Value.
type RVal struct {
	T  *Type
	V  Value
	P  *Value // storage, when addressable
	RO bool
}

func (r *RVal) get() Value {
	if r.P != nil {
		return *r.P
	}
	return r.V
}

type rMapIter struct {
	m   *Map
	t   *types.Map
	pos *Value
	ord []int
}

func (m *M) rtype(t types.Type) Value {
	return Value{P: &Iface{T: m.rtypeT, V: Value{P: m.canon(t)}}}
}

func (m *M) typeOf(v Value) Value {
	i, ok := v.P.(*Iface)
	if !ok {
		m.chkPoison(v)
		return Value{}
	}
	return m.rtype(i.T.T)
}

func (m *M) valueOf(v Value) Value {
	m.chkPoison(v)
	i, ok := v.P.(*Iface)
	if !ok {
		return Value{}
	}
	return Value{P: &RVal{T: i.T, V: i.V}}
}

func (m *M) rval(v Value) *RVal {
	switch r := v.P.(type) {
	case *RVal:
		return r
	case nil:
		panic(goPanic{m.ifaceStr("reflect: call on zero Value")})
	case *poisonT:
		panic(unsupported{"poison: " + r.why})
	}
	panic(unsupported{fmt.Sprintf("reflect.Value expected, got %T", v.P)})
}

func typeArg(v Value) *Type {
	switch x := v.P.(type) {
	case *Type:
		return x
	case *Iface:
		if t, ok := x.V.P.(*Type); ok {
			return t
		}
	}
	panic(unsupported{"reflect.Type expected, got " + show(v, 1)})
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		s := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "any", "interface {}")
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	return s
}

func (m *M) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return tuple(str(f.Name()), str(pkg), m.rtype(f.Type()), str(st.Tag(i)), Value{}, mkSlice([]Value{intV(int64(i))}), boolV(f.Embedded()))
}

func (m *M) rfield(r *RVal, i int) *RVal {
	st, ok := r.T.U.(*types.Struct)
	if !ok {
		panic(goPanic{m.ifaceStr("reflect: call of reflect.Value.Field on " + kindOf(r.T.T).String() + " Value")})
	}
	if i < 0 || i >= st.NumFields() {
		panic(goPanic{m.ifaceStr("reflect: Field index out of range")})
	}
	f := st.Field(i)
	n := &RVal{T: m.canon(f.Type()), RO: r.RO || !f.Exported()}
	if r.P != nil {
		n.P = &agg(*r.P)[i]
	} else {
		n.V = agg(r.V)[i]
	}
	return n
}

func (m *M) rmk(t types.Type, v Value) Value { return Value{P: &RVal{T: m.canon(t), V: v}} }

func (m *M) rset(r *RVal, v Value) {
	if r.P == nil {
		panic(goPanic{m.ifaceStr("reflect: reflect.Value.Set using unaddressable value")})
	}
	if r.RO {
		panic(goPanic{m.ifaceStr("reflect: reflect.Value.Set using value obtained using unexported field")})
	}
	m.storeT(r.P, v, r.T.T)
}

// assign converts x for assignment to type t.
func (m *M) rassign(x *RVal, t *Type) Value {
	v := x.get()
	if _, ok := t.U.(*types.Interface); ok {
		if _, src := x.T.U.(*types.Interface); src {
			return v
		}
		return Value{P: &Iface{T: x.T, V: copyVal(v)}}
	}
	if x.T != t && !types.AssignableTo(x.T.T, t.T) {
		panic(goPanic{m.ifaceStr("reflect.Set: value of type " + typeStr(x.T.T) + " is not assignable to type " + typeStr(t.T))})
	}
	return copyVal(v)
}

func (m *M) riface(r *RVal) Value {
	v := r.get()
	if _, ok := r.T.U.(*types.Interface); ok {
		return v
	}
	return Value{P: &Iface{T: r.T, V: copyVal(v)}}
}

func (m *M) rindex(r *RVal, i int) *RVal {
	oob := func() { panic(goPanic{m.ifaceStr("reflect: slice index out of range")}) }
	switch u := r.T.U.(type) {
	case *types.Slice:
		a := sliceOf(r.get())
		if i < 0 || i >= len(a) {
			oob()
		}
		return &RVal{T: m.canon(u.Elem()), P: &a[i], RO: r.RO}
	case *types.Array:
		if r.P != nil {
			return &RVal{T: m.canon(u.Elem()), P: &agg(*r.P)[i], RO: r.RO}
		}
		return &RVal{T: m.canon(u.Elem()), V: agg(r.V)[i], RO: r.RO}
	case *types.Basic:
		if i < 0 || i >= strLen(r.get()) {
			oob()
		}
		return &RVal{T: m.canon(types.Typ[types.Uint8]), V: strByte(r.get(), i), RO: r.RO}
	}
	panic(goPanic{m.ifaceStr("reflect: call of reflect.Value.Index on " + kindOf(r.T.T).String() + " Value")})
}

func (m *M) relem(r *RVal) Value {
	switch u := r.T.U.(type) {
	case *types.Pointer:
		p, ok := r.get().P.(*Value)
		if !ok {
			m.chkPoison(r.get())
			return Value{}
		}
		return Value{P: &RVal{T: m.canon(u.Elem()), P: p, RO: r.RO}}
	case *types.Interface:
		i, ok := r.get().P.(*Iface)
		if !ok {
			return Value{}
		}
		return Value{P: &RVal{T: i.T, V: i.V, RO: r.RO}}
	}
	panic(goPanic{m.ifaceStr("reflect: call of reflect.Value.Elem on " + kindOf(r.T.T).String() + " Value")})
}

func (m *M) isZero(v Value, t *Type) *smt.Term {
	e := m.eqDeepZero(v, t)
	return e
}

func (m *M) eqDeepZero(v Value, t *Type) *smt.Term {
	switch u := t.U.(type) {
	case *types.Struct:
		r := m.c.True
		for i, e := range agg(v) {
			r = m.c.And(r, m.eqDeepZero(e, m.canon(u.Field(i).Type())))
		}
		return r
	case *types.Array:
		r := m.c.True
		for _, e := range agg(v) {
			r = m.c.And(r, m.eqDeepZero(e, m.canon(u.Elem())))
		}
		return r
	case *types.Basic:
		return m.term(m.eq(v, m.zero(t.T), t), num{w: 1})
	}
	return m.c.B(v.P == nil)
}

// deepEqual models reflect.DeepEqual on acyclic values.
func (m *M) deepEqual(x, y Value, t *Type, d int) *smt.Term {
	if d > 50 {
		panic(unsupported{"deep equality depth"})
	}
	c := m.c
	switch u := t.U.(type) {
	case *types.Struct:
		r := c.True
		a, b := agg(x), agg(y)
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], m.canon(u.Field(i).Type()), d+1))
			if r == c.False {
				return r
			}
		}
		return r
	case *types.Array:
		r := c.True
		a, b := agg(x), agg(y)
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], m.canon(u.Elem()), d+1))
		}
		return r
	case *types.Slice:
		if (x.P == nil) != (y.P == nil) {
			return c.False
		}
		a, b := sliceOf(x), sliceOf(y)
		if len(a) != len(b) {
			return c.False
		}
		r := c.True
		for i := range a {
			r = c.And(r, m.deepEqual(a[i], b[i], m.canon(u.Elem()), d+1))
			if r == c.False {
				return r
			}
		}
		return r
	case *types.Pointer:
		if x.P == y.P {
			return c.True
		}
		if x.P == nil || y.P == nil {
			return c.False
		}
		if _, ok := x.P.(*Type); ok {
			return c.False
		}
		return m.deepEqual(*m.deref(x), *m.deref(y), m.canon(u.Elem()), d+1)
	case *types.Interface:
		if x.P == nil || y.P == nil {
			return c.B(x.P == nil && y.P == nil)
		}
		a, b := x.P.(*Iface), y.P.(*Iface)
		if a.T != b.T {
			return c.False
		}
		return m.deepEqual(a.V, b.V, a.T, d+1)
	case *types.Map:
		a, b := m.mapOf(x), m.mapOf(y)
		if (a == nil) != (b == nil) {
			return c.False
		}
		if a == nil || a == b {
			return c.True
		}
		if a.live != b.live {
			return c.False
		}
		r := c.True
		for i := range a.ents {
			e := &a.ents[i]
			if e.del {
				continue
			}
			j, _, _ := m.mapFind(b, e.k, m.canon(u.Key()))
			if j < 0 {
				return c.False
			}
			r = c.And(r, m.deepEqual(e.v, b.ents[j].v, m.canon(u.Elem()), d+1))
		}
		return r
	case *types.Signature:
		return c.B(x.P == nil && y.P == nil)
	}
	return m.term(m.eq(x, y, t), num{w: 1})
}

func (m *M) rlen(r *RVal) int {
	switch u := r.T.U.(type) {
	case *types.Slice:
		return len(sliceOf(r.get()))
	case *types.Array:
		return int(u.Len())
	case *types.Map:
		if mm := m.mapOf(r.get()); mm != nil {
			return mm.live
		}
		return 0
	case *types.Basic:
		return strLen(r.get())
	}
	panic(goPanic{m.ifaceStr("reflect: call of reflect.Value.Len on " + kindOf(r.T.T).String() + " Value")})
}

var reflectFns = map[string]intrinsic{}

func rvm(name string, f func(m *M, r *RVal, a []Value) Value) {
	reflectFns["(reflect.Value)."+name] = func(m *M, a []Value) Value { return f(m, m.rval(a[0]), a[1:]) }
}

func rtm(name string, f func(m *M, t *Type, a []Value) Value) {
	g := func(m *M, a []Value) Value { return f(m, typeArg(a[0]), a[1:]) }
	reflectFns["(*reflect.rtype)."+name] = g
	reflectFns["(reflect.Type)."+name] = g
}

func init() {
	F := reflectFns
	F["reflect.TypeOf"] = func(m *M, a []Value) Value { return m.typeOf(a[0]) }
	F["reflect.ValueOf"] = func(m *M, a []Value) Value { return m.valueOf(a[0]) }
	F["reflect.New"] = func(m *M, a []Value) Value {
		t := typeArg(a[0])
		return m.rmk(types.NewPointer(t.T), ptrV(m.alloc(t.T)))
	}
	F["reflect.Zero"] = func(m *M, a []Value) Value { t := typeArg(a[0]); return m.rmk(t.T, m.zero(t.T)) }
	F["reflect.Indirect"] = func(m *M, a []Value) Value {
		r, ok := a[0].P.(*RVal)
		if !ok {
			return a[0]
		}
		if _, ok := r.T.U.(*types.Pointer); ok {
			return m.relem(r)
		}
		return a[0]
	}
	F["reflect.MakeSlice"] = func(m *M, a []Value) Value {
		t := typeArg(a[0])
		n, c := int(m.conc(a[1])), int(m.conc(a[2]))
		arr := make([]Value, c)
		m.fillZero(arr, t.U.(*types.Slice).Elem())
		m.noteFresh(arr)
		return m.rmk(t.T, mkSlice(arr[:n]))
	}
	F["reflect.MakeMap"] = func(m *M, a []Value) Value { t := typeArg(a[0]); return m.rmk(t.T, Value{P: m.newMap()}) }
	F["reflect.MakeMapWithSize"] = F["reflect.MakeMap"]
	F["reflect.Append"] = func(m *M, a []Value) Value {
		r := m.rval(a[0])
		et := m.canon(r.T.U.(*types.Slice).Elem())
		var add []Value
		for _, x := range sliceOf(a[1]) {
			add = append(add, m.rassign(m.rval(x), et))
		}
		if len(add) == 0 {
			return a[0]
		}
		return m.rmk(r.T.T, mkSlice(m.appendVals(sliceOf(r.get()), add, et.T)))
	}
	F["reflect.AppendSlice"] = func(m *M, a []Value) Value {
		r, s := m.rval(a[0]), m.rval(a[1])
		add := sliceOf(s.get())
		if len(add) == 0 {
			return a[0]
		}
		return m.rmk(r.T.T, mkSlice(m.appendVals(sliceOf(r.get()), append([]Value(nil), add...), r.T.U.(*types.Slice).Elem())))
	}
	F["reflect.DeepEqual"] = func(m *M, a []Value) Value {
		if a[0].P == nil || a[1].P == nil {
			return boolV(a[0].P == nil && a[1].P == nil)
		}
		x, y := a[0].P.(*Iface), a[1].P.(*Iface)
		if x.T != y.T {
			return Value{}
		}
		return termV(m.deepEqual(x.V, y.V, x.T, 0))
	}
	F["reflect.PointerTo"] = func(m *M, a []Value) Value { return m.rtype(types.NewPointer(typeArg(a[0]).T)) }
	F["reflect.PtrTo"] = F["reflect.PointerTo"]
	F["reflect.SliceOf"] = func(m *M, a []Value) Value { return m.rtype(types.NewSlice(typeArg(a[0]).T)) }
	F["reflect.MapOf"] = func(m *M, a []Value) Value {
		return m.rtype(types.NewMap(typeArg(a[0]).T, typeArg(a[1]).T))
	}
	swapper := func(m *M, a []Value) Value {
		i := a[0].P.(*Iface)
		s := sliceOf(i.V)
		et := i.T.U.(*types.Slice).Elem()
		return Value{P: &Closure{Nat: func(m *M, b []Value) Value {
			x, y := int(m.conc(b[0])), int(m.conc(b[1]))
			if x < 0 || y < 0 || x >= len(s) || y >= len(s) {
				panic(goPanic{m.ifaceStr("reflect: slice index out of range")})
			}
			u, v := copyVal(s[x]), copyVal(s[y])
			m.storeT(&s[x], v, et)
			m.storeT(&s[y], u, et)
			return Value{}
		}}}
	}
	F["reflect.Swapper"] = swapper
	F["(reflect.Kind).String"] = func(m *M, a []Value) Value { return str(reflect.Kind(a[0].N).String()) }

	rtm("Kind", func(m *M, t *Type, a []Value) Value { return Value{N: uint64(kindOf(t.T))} })
	rtm("Elem", func(m *M, t *Type, a []Value) Value {
		switch u := t.U.(type) {
		case *types.Pointer:
			return m.rtype(u.Elem())
		case *types.Slice:
			return m.rtype(u.Elem())
		case *types.Array:
			return m.rtype(u.Elem())
		case *types.Map:
			return m.rtype(u.Elem())
		case *types.Chan:
			return m.rtype(u.Elem())
		}
		panic(goPanic{m.ifaceStr("reflect: Elem of invalid type " + typeStr(t.T))})
	})
	rtm("Key", func(m *M, t *Type, a []Value) Value { return m.rtype(t.U.(*types.Map).Key()) })
	rtm("Len", func(m *M, t *Type, a []Value) Value { return intV(t.U.(*types.Array).Len()) })
	rtm("Name", func(m *M, t *Type, a []Value) Value { return str(typeName(t.T)) })
	rtm("String", func(m *M, t *Type, a []Value) Value { return str(typeStr(t.T)) })
	rtm("PkgPath", func(m *M, t *Type, a []Value) Value {
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return str(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	rtm("NumField", func(m *M, t *Type, a []Value) Value { return intV(int64(t.U.(*types.Struct).NumFields())) })
	rtm("Field", func(m *M, t *Type, a []Value) Value {
		st, ok := t.U.(*types.Struct)
		if !ok {
			panic(goPanic{m.ifaceStr("reflect: Field of non-struct type " + typeStr(t.T))})
		}
		i := int(m.conc(a[0]))
		if i < 0 || i >= st.NumFields() {
			panic(goPanic{m.ifaceStr("reflect: Field index out of bounds")})
		}
		return m.structField(st, i)
	})
	rtm("FieldByName", func(m *M, t *Type, a []Value) Value {
		st := t.U.(*types.Struct)
		n := mustStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return tuple(m.structField(st, i), boolV(true))
			}
		}
		return tuple(m.zero(m.p.NamedType("reflect", "StructField")), boolV(false))
	})
	rtm("NumMethod", func(m *M, t *Type, a []Value) Value {
		n := 0
		ms := types.NewMethodSet(t.T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return intV(int64(n))
	})
	rtm("Implements", func(m *M, t *Type, a []Value) Value { return boolV(m.implements(t, typeArg(a[0]))) })
	rtm("AssignableTo", func(m *M, t *Type, a []Value) Value { return boolV(types.AssignableTo(t.T, typeArg(a[0]).T)) })
	rtm("ConvertibleTo", func(m *M, t *Type, a []Value) Value { return boolV(types.ConvertibleTo(t.T, typeArg(a[0]).T)) })
	rtm("Comparable", func(m *M, t *Type, a []Value) Value { return boolV(types.Comparable(t.T)) })
	rtm("Size", func(m *M, t *Type, a []Value) Value { return intV(m.p.sizes.Sizeof(t.T)) })
	rtm("Bits", func(m *M, t *Type, a []Value) Value { return intV(int64(numOf(t.T).w)) })

	rvm("Kind", nil)
	F["(reflect.Value).Kind"] = func(m *M, a []Value) Value {
		r, ok := a[0].P.(*RVal)
		if !ok {
			m.chkPoison(a[0])
			return Value{}
		}
		return Value{N: uint64(kindOf(r.T.T))}
	}
	F["(reflect.Value).IsValid"] = func(m *M, a []Value) Value { return boolV(a[0].P != nil) }
	rvm("Type", func(m *M, r *RVal, a []Value) Value { return m.rtype(r.T.T) })
	rvm("Elem", func(m *M, r *RVal, a []Value) Value { return m.relem(r) })
	rvm("Interface", func(m *M, r *RVal, a []Value) Value {
		if r.RO {
			panic(goPanic{m.ifaceStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")})
		}
		return m.riface(r)
	})
	F["reflect.packEface"] = func(m *M, a []Value) Value { return m.riface(m.rval(a[0])) }
	F["reflect.valueInterface"] = func(m *M, a []Value) Value { return m.riface(m.rval(a[0])) }
	rvm("CanInterface", func(m *M, r *RVal, a []Value) Value { return boolV(!r.RO) })
	rvm("CanAddr", func(m *M, r *RVal, a []Value) Value { return boolV(r.P != nil) })
	rvm("CanSet", func(m *M, r *RVal, a []Value) Value { return boolV(r.P != nil && !r.RO) })
	rvm("Addr", func(m *M, r *RVal, a []Value) Value {
		if r.P == nil {
			panic(goPanic{m.ifaceStr("reflect.Value.Addr of unaddressable value")})
		}
		return Value{P: &RVal{T: m.canon(types.NewPointer(r.T.T)), V: ptrV(r.P), RO: r.RO}}
	})
	rvm("IsNil", func(m *M, r *RVal, a []Value) Value {
		switch kindOf(r.T.T) {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
			return boolV(r.get().P == nil)
		}
		panic(goPanic{m.ifaceStr("reflect: call of reflect.Value.IsNil on " + kindOf(r.T.T).String() + " Value")})
	})
	rvm("IsZero", func(m *M, r *RVal, a []Value) Value { return termV(m.isZero(r.get(), r.T)) })
	rvm("Len", func(m *M, r *RVal, a []Value) Value { return intV(int64(m.rlen(r))) })
	rvm("Cap", func(m *M, r *RVal, a []Value) Value { return intV(int64(cap(sliceOf(r.get())))) })
	rvm("Index", func(m *M, r *RVal, a []Value) Value { return Value{P: m.rindex(r, int(int64(m.conc(a[0]))))} })
	rvm("NumField", func(m *M, r *RVal, a []Value) Value { return intV(int64(r.T.U.(*types.Struct).NumFields())) })
	rvm("Field", func(m *M, r *RVal, a []Value) Value { return Value{P: m.rfield(r, int(int64(m.conc(a[0]))))} })
	rvm("FieldByIndex", func(m *M, r *RVal, a []Value) Value {
		for k, i := range sliceOf(a[0]) {
			if k > 0 {
				if _, ok := r.T.U.(*types.Pointer); ok {
					e := m.relem(r)
					if e.P == nil {
						panic(goPanic{m.ifaceStr("reflect: indirection through nil pointer to embedded struct")})
					}
					r = m.rval(e)
				}
			}
			r = m.rfield(r, int(m.conc(i)))
		}
		return Value{P: r}
	})
	rvm("FieldByName", func(m *M, r *RVal, a []Value) Value {
		st := r.T.U.(*types.Struct)
		n := mustStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Value{P: m.rfield(r, i)}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if es, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Embedded() {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == n {
						return Value{P: m.rfield(m.rfield(r, i), j)}
					}
				}
			}
		}
		return Value{}
	})
	rvm("Set", func(m *M, r *RVal, a []Value) Value {
		x := m.rval(a[0])
		if r.P == nil {
			panic(goPanic{m.ifaceStr("reflect: reflect.Value.Set using unaddressable value")})
		}
		m.rset(r, m.rassign(x, r.T))
		return Value{}
	})
	setNum := func(name string, ok func(k reflect.Kind) bool) {
		rvm(name, func(m *M, r *RVal, a []Value) Value {
			k := kindOf(r.T.T)
			if !ok(k) {
				panic(goPanic{m.ifaceStr("reflect: call of reflect.Value." + name + " on " + k.String() + " Value")})
			}
			n := numOf(r.T.T)
			v := a[0]
			if n.float && n.w == 32 {
				v = m.convNum(v, num{w: 64, float: true}, n)
			} else if !n.float && n.w < 64 && n.w > 1 {
				v = m.convNum(v, num{w: 64, signed: n.signed}, n)
			}
			m.rset(r, v)
			return Value{}
		})
	}
	setNum("SetInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 })
	setNum("SetUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr })
	setNum("SetFloat", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 })
	setNum("SetBool", func(k reflect.Kind) bool { return k == reflect.Bool })
	setNum("SetString", func(k reflect.Kind) bool { return k == reflect.String })
	rvm("SetBytes", func(m *M, r *RVal, a []Value) Value { m.rset(r, a[0]); return Value{} })
	rvm("SetZero", func(m *M, r *RVal, a []Value) Value { m.rset(r, m.zero(r.T.T)); return Value{} })
	rvm("SetLen", func(m *M, r *RVal, a []Value) Value {
		m.rset(r, mkSlice(sliceOf(r.get())[:m.conc(a[0])]))
		return Value{}
	})
	rvm("Grow", func(m *M, r *RVal, a []Value) Value {
		s := sliceOf(r.get())
		need := len(s) + int(int64(m.conc(a[0])))
		if need <= cap(s) {
			return Value{}
		}
		et := r.T.U.(*types.Slice).Elem()
		arr := make([]Value, max(need, 2*cap(s)))
		for i := range arr {
			if i < len(s) {
				arr[i] = s[i]
			} else {
				arr[i] = m.zero(et)
			}
		}
		m.noteFresh(arr)
		m.rset(r, mkSlice(arr[:len(s)]))
		return Value{}
	})
	getNum := func(name string, to num, ok func(k reflect.Kind) bool) {
		rvm(name, func(m *M, r *RVal, a []Value) Value {
			k := kindOf(r.T.T)
			if !ok(k) {
				panic(goPanic{m.ifaceStr("reflect: call of reflect.Value." + name + " on " + k.String() + " Value")})
			}
			return m.convNum(r.get(), numOf(r.T.T), to)
		})
		rvm("Can"+name, func(m *M, r *RVal, a []Value) Value { return boolV(ok(kindOf(r.T.T))) })
	}
	getNum("Int", num{w: 64, signed: true}, func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 })
	getNum("Uint", num{w: 64}, func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr })
	getNum("Float", num{w: 64, float: true}, func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 })
	rvm("Bool", func(m *M, r *RVal, a []Value) Value { return r.get() })
	F["(reflect.Value).String"] = func(m *M, a []Value) Value {
		r, ok := a[0].P.(*RVal)
		if !ok {
			return str("<invalid Value>")
		}
		if kindOf(r.T.T) == reflect.String {
			return r.get()
		}
		return str("<" + typeStr(r.T.T) + " Value>")
	}
	rvm("Bytes", func(m *M, r *RVal, a []Value) Value {
		if _, ok := r.T.U.(*types.Array); ok {
			return mkSlice(agg(r.get()))
		}
		return r.get()
	})
	ov := func(name string, signed bool) {
		rvm(name, func(m *M, r *RVal, a []Value) Value {
			n := numOf(r.T.T)
			if n.w == 64 {
				return Value{}
			}
			tr := m.convNum(m.convNum(a[0], num{w: 64, signed: signed}, n), n, num{w: 64, signed: signed})
			e := m.eq(tr, a[0], m.canon(types.Typ[types.Uint64]))
			if e.P == nil {
				return Value{N: e.N ^ 1}
			}
			return termV(m.c.Not(e.term()))
		})
	}
	ov("OverflowInt", true)
	ov("OverflowUint", false)
	rvm("Pointer", func(m *M, r *RVal, a []Value) Value { return Value{N: ptrNum(r.get())} })
	rvm("UnsafePointer", func(m *M, r *RVal, a []Value) Value { return r.get() })
	rvm("NumMethod", func(m *M, r *RVal, a []Value) Value {
		n := 0
		ms := types.NewMethodSet(r.T.T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return intV(int64(n))
	})
	rvm("MapKeys", func(m *M, r *RVal, a []Value) Value {
		mt := r.T.U.(*types.Map)
		var out []Value
		if mm := m.mapOf(r.get()); mm != nil {
			for _, e := range mm.ents {
				if !e.del {
					out = append(out, m.rmk(mt.Key(), e.k))
				}
			}
		}
		return mkSlice(out)
	})
	rvm("MapIndex", func(m *M, r *RVal, a []Value) Value {
		mt := r.T.U.(*types.Map)
		mm := m.mapOf(r.get())
		if mm == nil {
			return Value{}
		}
		kt := m.canon(mt.Key())
		if i, _, _ := m.mapFind(mm, m.rassign(m.rval(a[0]), kt), kt); i >= 0 {
			return m.rmk(mt.Elem(), copyVal(mm.ents[i].v))
		}
		return Value{}
	})
	rvm("SetMapIndex", func(m *M, r *RVal, a []Value) Value {
		mt := r.T.U.(*types.Map)
		mm := m.mapOf(r.get())
		kt := m.canon(mt.Key())
		k := m.rassign(m.rval(a[0]), kt)
		if a[1].P == nil {
			if mm != nil {
				m.mapDelete(mm, k, kt)
			}
			return Value{}
		}
		if mm == nil {
			panic(goPanic{m.plainError("assignment to entry in nil map")})
		}
		m.mapSet(mm, k, m.rassign(m.rval(a[1]), m.canon(mt.Elem())), kt)
		return Value{}
	})
	rvm("MapRange", func(m *M, r *RVal, a []Value) Value {
		it := &rMapIter{t: r.T.U.(*types.Map), m: m.mapOf(r.get()), pos: m.newCell(intV(-1))}
		if it.m != nil {
			for i := range it.m.ents {
				if !it.m.ents[i].del {
					it.ord = append(it.ord, i)
				}
			}
		}
		return ptrV(m.newCell(Value{P: it}))
	})
	iter := func(m *M, v Value) *rMapIter { return m.deref(v).P.(*rMapIter) }
	F["(*reflect.MapIter).Next"] = func(m *M, a []Value) Value {
		it := iter(m, a[0])
		i := int64(it.pos.N) + 1
		m.noteCell(it.pos)
		m.set(it.pos, intV(i))
		return boolV(i < int64(len(it.ord)))
	}
	F["(*reflect.MapIter).Key"] = func(m *M, a []Value) Value {
		it := iter(m, a[0])
		return m.rmk(it.t.Key(), it.m.ents[it.ord[it.pos.N]].k)
	}
	F["(*reflect.MapIter).Value"] = func(m *M, a []Value) Value {
		it := iter(m, a[0])
		return m.rmk(it.t.Elem(), copyVal(it.m.ents[it.ord[it.pos.N]].v))
	}
	rvm("Convert", func(m *M, r *RVal, a []Value) Value {
		t := typeArg(a[0])
		s, d := numOf(r.T.T), numOf(t.T)
		if s.w > 0 && d.w > 0 {
			return m.rmk(t.T, m.convNum(r.get(), s, d))
		}
		if _, ok := t.U.(*types.Interface); ok {
			return m.rmk(t.T, m.riface(r))
		}
		if types.Identical(r.T.U, t.U) {
			return m.rmk(t.T, r.get())
		}
		if sl, ok := r.T.U.(*types.Slice); ok && d.isStr && numOf(sl.Elem()).w == 8 {
			return m.rmk(t.T, strOfBytes(sliceOf(r.get())))
		}
		if sl, ok := t.U.(*types.Slice); ok && s.isStr && numOf(sl.Elem()).w == 8 {
			return m.rmk(t.T, mkSlice(bytesOfStr(r.get())))
		}
		panic(unsupported{"reflect.Value.Convert"})
	})
	rvm("Slice", func(m *M, r *RVal, a []Value) Value {
		lo, hi := int(m.conc(a[0])), int(m.conc(a[1]))
		if numOf(r.T.T).isStr {
			return m.rmk(r.T.T, substr(r.get(), lo, hi))
		}
		return m.rmk(r.T.T, mkSlice(sliceOf(r.get())[lo:hi]))
	})
	rvm("Method", func(m *M, r *RVal, a []Value) Value { panic(unsupported{"reflect.Value.Method"}) })
	rvm("Comparable", func(m *M, r *RVal, a []Value) Value { return boolV(types.Comparable(r.T.T)) })
	rvm("Call", func(m *M, r *RVal, a []Value) Value { panic(unsupported{"reflect.Value.Call"}) })

	pkgIntrinsics["reflect"] = func(m *M, s *ssa.Function, name string) intrinsic {
		if f := reflectFns[name]; f != nil {
			return f
		}
		if strings.HasPrefix(name, "(reflect.StructTag)") || strings.HasPrefix(name, "(reflect.StructField)") || strings.HasPrefix(name, "(reflect.VisibleFields") {
			return nil
		}
		if name == "reflect.TypeFor" {
			t := s.TypeArgs()[0]
			return func(m *M, a []Value) Value { return m.rtype(t) }
		}
		if s.Synthetic != "" && s.Blocks != nil {
			return nil
		}
		return func(m *M, a []Value) Value { panic(unsupported{"reflect function " + name}) }
	}
	pkgIntrinsics["internal/reflectlite"] = func(m *M, s *ssa.Function, name string) intrinsic {
		n := strings.ReplaceAll(name, "internal/reflectlite", "reflect")
		switch n {
		case "reflect.Swapper":
			return swapper
		}
		if strings.HasPrefix(n, "(reflect.Value).") || strings.HasPrefix(n, "(reflect.rtype).") || strings.HasPrefix(n, "(*reflect.rtype).") || strings.HasPrefix(n, "reflect.") {
			n = strings.Replace(n, "(reflect.rtype)", "(*reflect.rtype)", 1)
			if f := reflectFns[n]; f != nil {
				return f
			}
		}
		return func(m *M, a []Value) Value { panic(unsupported{"reflectlite function " + name}) }
	}
}
