package exec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// jnode is a JSON document built by the harness (v) or parsed from bytes (n).
type jnode struct {
	v Value
	n *jn
}

const (
	jNull = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jn struct {
	kind int
	b    Value
	f    Value
	num  string // literal, when known
	s    Value
	a    []*jn
	k    []Value
}

// jsonDoc returns the tree of a token document or of concrete JSON text.
func (m *M) jsonDoc(data []Value) (*jn, Value) {
	b, ok := concBytes(data)
	if !ok {
		return nil, Value{N: 1}
	}
	if id, ok := tokenID(b); ok && id < len(m.docs) {
		d := m.docs[id]
		if d.n == nil {
			return m.nodeFrom(d.v), Value{}
		}
		return d.n, Value{}
	}
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		if se, ok := err.(*json.SyntaxError); ok {
			return nil, m.errorVal("encoding/json", "SyntaxError", str(se.Error()), intV(se.Offset))
		}
		if te, ok := err.(*json.UnmarshalTypeError); ok { // number out of float64 range
			_ = te
			panic(unsupported{"json: " + err.Error()})
		}
		panic(unsupported{"json: " + err.Error()})
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	return parseTok(dec), Value{}
}

func parseTok(dec *json.Decoder) *jn {
	t, err := dec.Token()
	if err != nil {
		panic(unsupported{"json token: " + err.Error()})
	}
	switch t := t.(type) {
	case nil:
		return &jn{kind: jNull}
	case bool:
		return &jn{kind: jBool, b: boolV(t)}
	case json.Number:
		f, _ := t.Float64()
		return &jn{kind: jNum, f: fltV(f), num: string(t)}
	case string:
		return &jn{kind: jStr, s: str(t)}
	case json.Delim:
		n := &jn{kind: jArr}
		if t == '{' {
			n.kind = jObj
		}
		for dec.More() {
			if t == '{' {
				k, err := dec.Token()
				if err != nil {
					panic(unsupported{"json token: " + err.Error()})
				}
				n.k = append(n.k, str(k.(string)))
			}
			n.a = append(n.a, parseTok(dec))
		}
		dec.Token()
		return n
	}
	panic(unsupported{"json token"})
}

func tokenID(b []byte) (int, bool) {
	if len(b) < 7 || b[0] != 1 || string(b[1:5]) != "JSON" || b[len(b)-1] != 2 {
		return 0, false
	}
	id, err := strconv.Atoi(string(b[5 : len(b)-1]))
	return id, err == nil
}

// nodeFrom converts a harness *sym.Node.
func (m *M) nodeFrom(v Value) *jn {
	if v.P == nil {
		return &jn{kind: jNull}
	}
	f := agg(*m.deref(v))
	n := &jn{kind: int(m.conc(f[0])), b: f[1], f: f[2], s: f[3]}
	if n.kind == jStr {
		m.chkJSONStr(n.s)
	}
	for _, e := range sliceOf(f[4]) {
		n.a = append(n.a, m.nodeFrom(e))
	}
	for _, e := range sliceOf(f[5]) {
		m.chkJSONStr(e)
		n.k = append(n.k, e)
	}
	return n
}

// chkJSONStr refuses strings the JSON round trip would change.
func (m *M) chkJSONStr(v Value) {
	if s, ok := concStr(v); ok {
		if !utf8.ValidString(s) {
			panic(unsupported{"json: invalid UTF-8"})
		}
		return
	}
	x := v.P.(*Str)
	var run []byte
	flush := func() {
		if !utf8.Valid(run) {
			panic(unsupported{"json: invalid UTF-8"})
		}
		run = run[:0]
	}
	for i := 0; i < len(x.S); i++ {
		if x.T[i] == nil {
			run = append(run, x.S[i])
			continue
		}
		flush()
		if m.implied(m.c.Ult(x.T[i], m.c.BV(0x80, 8))) != 1 {
			panic(unsupported{"json: symbolic byte that may be non-ASCII"})
		}
	}
	flush()
}

func (m *M) jsonAny(n *jn) Value {
	switch n.kind {
	case jNull:
		return Value{}
	case jBool:
		return Value{P: &Iface{T: m.canon(types.Typ[types.Bool]), V: n.b}}
	case jNum:
		return Value{P: &Iface{T: m.canon(types.Typ[types.Float64]), V: n.f}}
	case jStr:
		return Value{P: &Iface{T: m.canon(types.Typ[types.String]), V: n.s}}
	case jArr:
		a := make([]Value, len(n.a))
		for i, e := range n.a {
			a[i] = m.jsonAny(e)
		}
		m.noteFresh(a)
		return Value{P: &Iface{T: m.canon(types.NewSlice(anyType)), V: mkSlice(a)}}
	case jObj:
		mm := m.newMap()
		st := m.canon(types.Typ[types.String])
		for i, e := range n.a {
			m.mapSet(mm, n.k[i], m.jsonAny(e), st)
		}
		return Value{P: &Iface{T: m.canon(types.NewMap(types.Typ[types.String], anyType)), V: Value{P: mm}}}
	}
	panic(unsupported{"json kind"})
}

var anyType = types.NewInterfaceType(nil, nil)

type jdec struct {
	m      *M
	err    Value // first UnmarshalTypeError
	strct  string
	field  []string
	number bool
}

func (d *jdec) typeErr(val string, t types.Type) {
	if d.err.P != nil {
		return
	}
	d.err = d.m.errorVal("encoding/json", "UnmarshalTypeError", str(val), d.m.rtype(t), Value{}, str(d.strct), str(strings.Join(d.field, ".")))
}

func (d *jdec) put(p *Value, v Value, t types.Type) { d.m.storeT(p, v, t) }

func (d *jdec) value(n *jn, p *Value, t types.Type) {
	m := d.m
	if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "encoding/json" {
		switch nt.Obj().Name() {
		case "RawMessage":
			m.docs = append(m.docs, &jnode{n: n})
			d.put(p, bytesVal([]byte(fmt.Sprintf("\x01JSON%d\x02", len(m.docs)-1))), t)
			return
		case "Number":
			if n.kind == jNum && n.num != "" {
				d.put(p, str(n.num), t)
				return
			}
			panic(unsupported{"json.Number"})
		}
	}
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && !types.IsInterface(t) {
		if m.methodByName(m.canon(types.NewPointer(t)), "UnmarshalJSON") != nil || m.methodByName(m.canon(types.NewPointer(t)), "UnmarshalText") != nil {
			panic(unsupported{"json.Unmarshaler " + t.String()})
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == jNull {
			d.put(p, Value{}, t)
			return
		}
		q, _ := p.P.(*Value)
		if q == nil {
			q = m.alloc(pt.Elem())
			d.put(p, ptrV(q), t)
		}
		d.value(n, q, pt.Elem())
		return
	}
	u := t.Underlying()
	if it, ok := u.(*types.Interface); ok {
		if it.NumMethods() > 0 {
			if n.kind == jNull {
				d.put(p, Value{}, t)
				return
			}
			d.typeErr(jname(n), t)
			return
		}
		if i, ok := p.P.(*Iface); ok && n.kind != jNull {
			if _, ptr := i.T.U.(*types.Pointer); ptr && i.V.P != nil {
				q := i.V
				tmp := &q
				d.value(n, tmp, i.T.T)
				return
			}
		}
		if d.number {
			panic(unsupported{"json UseNumber"})
		}
		d.put(p, m.jsonAny(n), t)
		return
	}
	switch n.kind {
	case jNull:
		switch u.(type) {
		case *types.Map, *types.Slice:
			d.put(p, Value{}, t)
		}
		return
	case jBool:
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			d.put(p, n.b, t)
			return
		}
		d.typeErr("bool", t)
	case jStr:
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			d.put(p, n.s, t)
			return
		}
		if s, ok := u.(*types.Slice); ok && kindOf(s.Elem()) == reflect.Uint8 {
			panic(unsupported{"json base64"})
		}
		d.typeErr("string", t)
	case jNum:
		b, ok := u.(*types.Basic)
		switch {
		case ok && b.Kind() == types.Float64:
			d.put(p, n.f, t)
		case ok && b.Info()&types.IsInteger != 0:
			if n.f.P != nil {
				panic(unsupported{"json: symbolic number into integer"})
			}
			lit := n.num
			if lit == "" {
				lit = strconv.FormatFloat(math.Float64frombits(n.f.N), 'g', -1, 64)
			}
			nn := numOf(t)
			if nn.signed {
				x, err := strconv.ParseInt(lit, 10, int(nn.w))
				if err != nil {
					d.typeErr("number "+lit, t)
					return
				}
				d.put(p, Value{N: maskW(uint64(x), nn.w)}, t)
				return
			}
			x, err := strconv.ParseUint(lit, 10, int(nn.w))
			if err != nil {
				d.typeErr("number "+lit, t)
				return
			}
			d.put(p, Value{N: x}, t)
		default:
			d.typeErr("number", t)
		}
	case jArr:
		switch u := u.(type) {
		case *types.Slice:
			a := make([]Value, len(n.a))
			for i := range a {
				a[i] = m.zero(u.Elem())
			}
			m.noteFresh(a)
			for i := range a {
				m.noteFreshVal(&a[i])
			}
			for i, e := range n.a {
				d.value(e, &a[i], u.Elem())
			}
			d.put(p, mkSlice(a), t)
		case *types.Array:
			c := agg(*p)
			for i := range c {
				if i < len(n.a) {
					d.value(n.a[i], &c[i], u.Elem())
				} else {
					d.put(&c[i], m.zero(u.Elem()), u.Elem())
				}
			}
		default:
			d.typeErr("array", t)
		}
	case jObj:
		switch u := u.(type) {
		case *types.Map:
			if kindOf(u.Key()) != reflect.String {
				panic(unsupported{"json map key"})
			}
			mm, _ := p.P.(*Map)
			if mm == nil {
				mm = m.newMap()
				d.put(p, Value{P: mm}, t)
			}
			kt := m.canon(u.Key())
			for i, e := range n.a {
				c := m.alloc(u.Elem())
				d.value(e, c, u.Elem())
				m.mapSet(mm, n.k[i], *c, kt)
			}
		case *types.Struct:
			for i, e := range n.a {
				key, ok := concStr(n.k[i])
				if !ok {
					panic(unsupported{"json: symbolic key into struct"})
				}
				fi, nm := jsonField(u, key)
				if fi < 0 {
					continue
				}
				sv, sf := d.strct, d.field
				d.strct = typeName(t)
				d.field = append(append([]string{}, d.field...), nm)
				d.value(e, &agg(*p)[fi], u.Field(fi).Type())
				d.strct, d.field = sv, sf
			}
		default:
			d.typeErr("object", t)
		}
	}
}

func jname(n *jn) string {
	return []string{"null", "bool", "number", "string", "array", "object"}[n.kind]
}

func jsonField(st *types.Struct, key string) (int, string) {
	fold := -1
	fn := ""
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			panic(unsupported{"json: embedded field"})
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		nm, opts, _ := strings.Cut(tag, ",")
		if strings.Contains(opts, "string") {
			panic(unsupported{"json: string option"})
		}
		if nm == "" {
			nm = f.Name()
		}
		if nm == key {
			return i, nm
		}
		if fold < 0 && strings.EqualFold(nm, key) {
			fold, fn = i, nm
		}
	}
	return fold, fn
}

func (m *M) jsonUnmarshal(data []Value, v Value) Value {
	n, err := m.jsonDoc(data)
	if n == nil {
		return err
	}
	i, ok := v.P.(*Iface)
	if !ok {
		return m.errorVal("encoding/json", "InvalidUnmarshalError", Value{})
	}
	pt, ok := i.T.U.(*types.Pointer)
	if !ok || i.V.P == nil {
		return m.errorVal("encoding/json", "InvalidUnmarshalError", m.rtype(i.T.T))
	}
	d := &jdec{m: m}
	d.value(n, m.deref(i.V), pt.Elem())
	return d.err
}

func init() {
	reg("encoding/json.Unmarshal", func(m *M, a []Value) Value {
		if m.loc != nil {
			m.abort("json")
		}
		data := sliceOf(a[0])
		if _, ok := concBytes(data); !ok {
			return m.orig()
		}
		return m.jsonUnmarshal(data, a[1])
	})
	reg("encoding/json.Valid", func(m *M, a []Value) Value {
		b, ok := concBytes(sliceOf(a[0]))
		if !ok {
			return m.orig()
		}
		if _, tok := tokenID(b); tok {
			return boolV(true)
		}
		return boolV(json.Valid(b))
	})
	reg("(*encoding/json.Decoder).Decode", func(m *M, a []Value) Value {
		f := agg(*m.deref(a[0]))
		dt := m.canon(m.p.NamedType("encoding/json", "Decoder")).U.(*types.Struct)
		for i := 0; i < dt.NumFields(); i++ {
			if dt.Field(i).Name() != "d" {
				continue
			}
			ds := m.canon(dt.Field(i).Type()).U.(*types.Struct)
			for j := 0; j < ds.NumFields(); j++ {
				if n := ds.Field(j).Name(); (n == "useNumber" || n == "disallowUnknownFields") && agg(f[i])[j].N != 0 {
					panic(unsupported{"json.Decoder option " + n})
				}
			}
		}
		fn := m.p.Func(modelPkg, "DecodeFrom")
		return m.tailfn(m.funcFor(fn), []Value{f[0], a[1]})
	})
}
