package exec

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unsafe"

	"gosym/smt"
)

type mEnt struct {
	k, v Value
	ks   string
	sym  bool
	del  bool
}

// Map keeps entries in insertion order.
type Map struct {
	ents []mEnt
	idx  map[string]int
	nsym int
	live int
	born int64
}

func (m *M) newMap() *Map {
	m.allocSeq++
	return &Map{idx: map[string]int{}, born: m.allocSeq}
}

func (m *M) onUndoObj(born int64, f func()) {
	if m.jour {
		m.journal = append(m.journal, jent{undo: f, old: Value{N: uint64(born)}})
	}
}

// mapKey encodes a concrete key; false if it is symbolic.
func (m *M) mapKey(v Value, t *Type) (string, bool) {
	switch u := t.U.(type) {
	case *types.Basic:
		n := numOf(u)
		if n.isStr {
			s, ok := concStr(v)
			return "s" + s, ok
		}
		if v.P != nil {
			if p, ok := v.P.(*poisonT); ok {
				panic(unsupported{"poison key: " + p.why})
			}
			if _, ok := v.P.(*smt.Term); ok {
				return "", false
			}
			return fmt.Sprintf("u%p", v.P), true
		}
		if n.float && math.Float64frombits(v.N) == 0 {
			return "n0", true
		}
		return "n" + strconv.FormatUint(v.N, 10), true
	case *types.Interface:
		if v.P == nil {
			return "nil", true
		}
		i, ok := v.P.(*Iface)
		if !ok {
			panic(unsupported{"map key " + show(v, 1)})
		}
		switch i.T.U.(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.rtPanic("hash of unhashable type %s", i.T.String())
		}
		s, ok := m.mapKey(i.V, i.T)
		return "t" + strconv.Itoa(i.T.ID) + ":" + s, ok
	case *types.Struct:
		var sb strings.Builder
		for k, e := range agg(v) {
			s, ok := m.mapKey(e, m.canon(u.Field(k).Type()))
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		for _, e := range agg(v) {
			s, ok := m.mapKey(e, m.canon(u.Elem()))
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	}
	switch p := v.P.(type) {
	case nil:
		return "p0", true
	case *Value:
		return "p" + strconv.FormatUint(uint64(uintptr(unsafe.Pointer(p))), 16), true
	case *poisonT:
		panic(unsupported{"poison key: " + p.why})
	}
	return fmt.Sprintf("q%p", v.P), true
}

func (m *M) mapFind(mm *Map, k Value, t *Type) (int, string, bool) {
	ks, conc := m.mapKey(k, t)
	if conc {
		if i, ok := mm.idx[ks]; ok {
			return i, ks, true
		}
		if mm.nsym == 0 {
			return -1, ks, true
		}
	}
	for i := range mm.ents {
		e := &mm.ents[i]
		if e.del || conc && !e.sym {
			continue
		}
		if m.decideV(m.eq(k, e.k, t)) {
			return i, ks, conc
		}
	}
	return -1, ks, conc
}

func (m *M) mapSet(mm *Map, k, v Value, t *Type) {
	i, ks, conc := m.mapFind(mm, k, t)
	if m.rc != nil && m.rc.shared[mm] {
		m.raceAccess(mm, true)
		m.publish(k)
		m.publish(v)
	}
	if i >= 0 {
		old := mm.ents[i].v
		mm.ents[i].v = v
		m.onUndoObj(mm.born, func() { mm.ents[i].v = old })
		return
	}
	n := len(mm.ents)
	mm.ents = append(mm.ents, mEnt{k: k, v: v, ks: ks, sym: !conc})
	mm.live++
	if conc {
		mm.idx[ks] = n
	} else {
		mm.nsym++
	}
	m.onUndoObj(mm.born, func() {
		mm.ents = mm.ents[:n]
		mm.live--
		if conc {
			delete(mm.idx, ks)
		} else {
			mm.nsym--
		}
	})
}

func (m *M) mapDelete(mm *Map, k Value, t *Type) {
	i, _, _ := m.mapFind(mm, k, t)
	if i < 0 {
		return
	}
	m.mapDelAt(mm, i)
}

func (m *M) mapDelAt(mm *Map, i int) {
	if m.rc != nil {
		m.raceAccess(mm, true)
	}
	e := &mm.ents[i]
	e.del = true
	mm.live--
	if e.sym {
		mm.nsym--
	} else {
		delete(mm.idx, e.ks)
	}
	m.onUndoObj(mm.born, func() {
		e := &mm.ents[i]
		e.del = false
		mm.live++
		if e.sym {
			mm.nsym++
		} else {
			mm.idx[e.ks] = i
		}
	})
}

func (m *M) mapOf(v Value) *Map {
	switch p := v.P.(type) {
	case nil:
		return nil
	case *Map:
		return p
	case *poisonT:
		panic(unsupported{"poison map: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("map expected, got %T", v.P)})
}

func (m *M) execLookup(f *Frame, ins *Instr) {
	mm := m.mapOf(f.get(ins.a))
	var v Value
	found := false
	if mm != nil && m.rc != nil {
		m.raceAccess(mm, false)
	}
	if mm != nil {
		if i, _, _ := m.mapFind(mm, f.get(ins.b), ins.typ2); i >= 0 {
			v = copyVal(mm.ents[i].v)
			found = true
		}
	} else {
		m.mapKey(f.get(ins.b), ins.typ2)
	}
	if !found {
		v = m.zero(ins.typ.T)
	}
	if ins.commaOk {
		m.finish(ins, tuple(v, boolV(found)))
	} else {
		m.finish(ins, v)
	}
}

type mapIter struct {
	m   *Map
	n   int
	pos *Value
	ord bool
}

type strIter struct {
	s   Value
	pos *Value
}

func (m *M) execRange(f *Frame, ins *Instr) {
	x := f.get(ins.a)
	m.chkPoison(x)
	if ins.n.isStr {
		m.finish(ins, Value{P: &strIter{s: x, pos: m.newCell(Value{})}})
		return
	}
	mm := m.mapOf(x)
	it := &mapIter{m: mm, pos: m.newCell(Value{})}
	if mm != nil && m.rc != nil {
		m.raceAccess(mm, false)
	}
	if mm != nil {
		it.n = len(mm.ents)
		if m.cfg.MapOrder && f.fn.repo && mm.live > 1 && it.n <= 64 && m.inInit == 0 {
			it.ord = true
		}
	}
	m.finish(ins, Value{P: it})
}

func (m *M) execNext(f *Frame, ins *Instr) {
	switch it := f.get(ins.a).P.(type) {
	case *strIter:
		i := int(it.pos.N)
		if i >= strLen(it.s) {
			m.finish(ins, tuple(boolV(false), Value{}, Value{}))
			return
		}
		var r Value
		w := 1
		if s := it.s.P.(*Str); s.T == nil {
			for k, c := range s.S[i:] {
				if k == 0 {
					r = Value{N: uint64(uint32(c))}
					w = runeLen(s.S[i:], c)
				}
				break
			}
		} else {
			r, w = m.decodeRune(it.s, i)
		}
		m.noteCell(it.pos)
		m.set(it.pos, Value{N: uint64(i + w)})
		m.finish(ins, tuple(boolV(true), intV(int64(i)), r))
	case *mapIter:
		if it.m == nil {
			m.finish(ins, tuple(boolV(false), m.zero(ins.typ.T), m.zero(ins.typ2.T)))
			return
		}
		if it.ord {
			var rem []int
			for i := 0; i < it.n && i < len(it.m.ents); i++ {
				if it.pos.N>>i&1 == 0 && !it.m.ents[i].del {
					rem = append(rem, i)
				}
			}
			if len(rem) == 0 {
				m.finish(ins, tuple(boolV(false), m.zero(ins.typ.T), m.zero(ins.typ2.T)))
				return
			}
			k := 0
			if len(rem) > 1 {
				if m.loc != nil {
					m.abort("map order")
				}
				t := m.newInput("order", "", 8)
				m.addPC(m.c.Ult(t, m.c.BV(uint64(len(rem)), 8)))
				k = int(m.concretize(t))
				m.R.MapOrders++
			}
			i := rem[k]
			m.set(it.pos, Value{N: it.pos.N | 1<<i})
			e := &it.m.ents[i]
			m.finish(ins, tuple(boolV(true), e.k, copyVal(e.v)))
			return
		}
		i := int(it.pos.N)
		for i < it.n && i < len(it.m.ents) && it.m.ents[i].del {
			i++
		}
		m.noteCell(it.pos)
		if i >= it.n || i >= len(it.m.ents) {
			m.finish(ins, tuple(boolV(false), m.zero(ins.typ.T), m.zero(ins.typ2.T)))
			return
		}
		m.set(it.pos, Value{N: uint64(i + 1)})
		e := &it.m.ents[i]
		m.finish(ins, tuple(boolV(true), e.k, copyVal(e.v)))
	default:
		panic(unsupported{"range over poison"})
	}
}

func (m *M) noteCell(p *Value) {
	if m.loc != nil {
		m.loc.cellT[p] = types.Typ[types.Int]
	}
}

func runeLen(s string, r rune) int {
	if r == 0xfffd {
		if len(s) >= 3 && s[0] == 0xef && s[1] == 0xbf && s[2] == 0xbd {
			return 3
		}
		return 1
	}
	switch {
	case r < 0x80:
		return 1
	case r < 0x800:
		return 2
	case r < 0x10000:
		return 3
	}
	return 4
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int, noscan bool) int {
	hdr := 0
	if !noscan && n > 512 {
		hdr = 8
	}
	n += hdr
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c - hdr
			}
		}
	}
	return (n+8191)/8192*8192 - hdr
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}

// growCap follows runtime.growslice.
func (m *M) growCap(oldCap, newLen int, et types.Type) int {
	nc := oldCap
	if dbl := nc + nc; newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(m.p.sizes.Sizeof(et))
	if sz == 0 {
		return newLen
	}
	return roundSize(nc*sz, !hasPointers(et)) / sz
}

func (m *M) appendVals(a []Value, b []Value, et types.Type) []Value {
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		for i, v := range b {
			m.storeT(&r[len(a)+i], v, et)
		}
		return r
	}
	c := m.growCap(cap(a), n, et)
	r := make([]Value, n, c)
	for i, v := range a {
		r[i] = copyVal(v)
	}
	for i, v := range b {
		r[len(a)+i] = copyVal(v)
	}
	full := r[:c]
	m.fillZero(full[n:], et)
	m.noteFresh(full)
	return r
}

func (m *M) builtin(ins *Instr, args []Value) Value {
	for _, a := range args {
		if p, ok := isPoison(a); ok {
			panic(unsupported{"poison: " + p.why})
		}
	}
	switch ins.name {
	case "len":
		switch u := ins.typ.U.(type) {
		case *types.Basic:
			return intV(int64(strLen(args[0])))
		case *types.Slice:
			return intV(int64(len(sliceOf(args[0]))))
		case *types.Map:
			mm := m.mapOf(args[0])
			if mm == nil {
				return Value{}
			}
			return intV(int64(mm.live))
		case *types.Array:
			return intV(u.Len())
		case *types.Pointer:
			return intV(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			if c, ok := args[0].P.(*Chan); ok {
				return intV(int64(len(c.Buf)))
			}
			return Value{}
		}
	case "cap":
		switch u := ins.typ.U.(type) {
		case *types.Slice:
			return intV(int64(cap(sliceOf(args[0]))))
		case *types.Array:
			return intV(u.Len())
		case *types.Pointer:
			return intV(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			if c, ok := args[0].P.(*Chan); ok {
				return intV(int64(c.Cap))
			}
			return Value{}
		}
	case "append":
		st := ins.typ.U.(*types.Slice)
		a := sliceOf(args[0])
		var b []Value
		if len(args) > 1 {
			if numOf(ins.typ2.T).isStr {
				b = bytesOfStr(args[1])
			} else {
				b = sliceOf(args[1])
			}
		}
		if len(b) == 0 {
			return args[0]
		}
		if len(a)+len(b) <= cap(a) && cap(a) > 0 {
			// may alias: copy the source first
			b = append([]Value(nil), b...)
		}
		return mkSlice(m.appendVals(a, b, st.Elem()))
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if numOf(ins.typ2.T).isStr {
			src = bytesOfStr(args[1])
		} else {
			src = sliceOf(args[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		et := ins.typ.U.(*types.Slice).Elem()
		for i := 0; i < n; i++ {
			m.storeT(&dst[i], tmp[i], et)
		}
		return intV(int64(n))
	case "delete":
		if mm := m.mapOf(args[0]); mm != nil {
			m.mapDelete(mm, args[1], m.canon(ins.typ.U.(*types.Map).Key()))
		}
		return Value{}
	case "clear":
		switch u := ins.typ.U.(type) {
		case *types.Map:
			if mm := m.mapOf(args[0]); mm != nil {
				for i := range mm.ents {
					if !mm.ents[i].del {
						m.mapDelAt(mm, i)
					}
				}
			}
		case *types.Slice:
			a := sliceOf(args[0])
			for i := range a {
				m.storeT(&a[i], m.zero(u.Elem()), u.Elem())
			}
		}
		return Value{}
	case "close":
		c, ok := args[0].P.(*Chan)
		if !ok {
			panic(goPanic{m.plainError("close of nil channel")})
		}
		if c.Closed {
			panic(goPanic{m.plainError("close of closed channel")})
		}
		c.Closed = true
		m.onUndo(func() { c.Closed = false })
		return Value{}
	case "recover":
		n := len(m.frames)
		if n >= 2 && m.frames[n-1].isDefer {
			p := m.frames[n-2]
			if p.pan != nil && !p.recovered {
				p = m.unshare(n - 2)
				p.recovered = true
				return p.pan.val
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			if ins.n.isStr {
				less = m.strLess(a, r, false)
			} else {
				less = m.binop(tokLSS, ins.n, ins.n, ins.typ, a, r)
			}
			if ins.name == "max" {
				if ins.n.isStr {
					less = m.strLess(r, a, false)
				} else {
					less = m.binop(tokLSS, ins.n, ins.n, ins.typ, r, a)
				}
			}
			if t, b, ok := m.condTerm(less); ok {
				if b {
					r = a
				}
			} else if ins.n.w > 0 {
				r = termV(m.c.Ite(t, m.term(a, ins.n), m.term(r, ins.n)))
			} else if m.decide(t) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.conc(args[1]))
		if n == 0 {
			return Value{}
		}
		return strOfBytes(unsafe.Slice(m.deref(args[0]), n))
	case "Slice": // unsafe.Slice
		n := int(m.conc(args[1]))
		if args[0].P == nil {
			return Value{}
		}
		return mkSlice(unsafe.Slice(m.deref(args[0]), n))
	case "SliceData":
		a := sliceOf(args[0])
		if cap(a) == 0 {
			return Value{}
		}
		return ptrV(&a[:1][0])
	case "StringData":
		b := bytesOfStr(args[0])
		if len(b) == 0 {
			return Value{}
		}
		return ptrV(&b[0])
	}
	panic(unsupported{"builtin " + ins.name})
}
