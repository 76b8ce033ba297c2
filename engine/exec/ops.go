package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unsafe"

	"gosym/smt"
)

func inArray(a []Value, p *Value) bool {
	if len(a) == 0 {
		return false
	}
	lo := uintptr(unsafe.Pointer(&a[0]))
	hi := lo + uintptr(len(a))*unsafe.Sizeof(a[0])
	x := uintptr(unsafe.Pointer(p))
	return x >= lo && x < hi
}

// symElem is the address of a symbolically indexed element that is only read.
type symElem struct {
	a   []Value
	idx *smt.Term
	n   num
}

func (m *M) term(v Value, n num) *smt.Term {
	if v.P != nil {
		t, ok := v.P.(*smt.Term)
		if !ok {
			if p, ok := isPoison(v); ok {
				panic(unsupported{"poison: " + p.why})
			}
			panic(unsupported{fmt.Sprintf("scalar expected, got %T", v.P)})
		}
		return t
	}
	switch {
	case n.w == 1:
		return m.c.B(v.N != 0)
	case n.float:
		if n.w == 32 {
			panic(unsupported{"symbolic float32"})
		}
		return m.c.F(math.Float64frombits(v.N))
	}
	return m.c.BV(maskW(v.N, n.w), smt.Sort(n.w))
}

func (m *M) deref(v Value) *Value {
	switch p := v.P.(type) {
	case *Value:
		return p
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *poisonT:
		panic(unsupported{"poison pointer: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("pointer expected, got %T", v.P)})
}

func (m *M) exec(f *Frame, ins *Instr) bool {
	switch ins.op {
	case oAlloc:
		m.finish(ins, ptrV(m.alloc(ins.typ.T)))
	case oBin:
		m.finish(ins, m.binop(ins.tok, ins.n, ins.n2, ins.typ, f.get(ins.a), f.get(ins.b)))
	case oNot:
		v := f.get(ins.a)
		if v.P == nil {
			m.finish(ins, Value{N: v.N ^ 1})
		} else {
			m.finish(ins, termV(m.c.Not(m.term(v, num{w: 1}))))
		}
	case oNeg:
		v := f.get(ins.a)
		n := ins.n
		switch {
		case v.P != nil && n.float:
			m.finish(ins, termV(m.c.FOp(smt.OpFNeg, smt.FP, m.term(v, n))))
		case v.P != nil:
			m.finish(ins, termV(m.c.Neg(m.term(v, n))))
		case n.float && n.w == 64:
			m.finish(ins, fltV(-math.Float64frombits(v.N)))
		case n.float:
			m.finish(ins, Value{N: uint64(math.Float32bits(-math.Float32frombits(uint32(v.N))))})
		default:
			m.finish(ins, Value{N: maskW(-v.N, n.w)})
		}
	case oCompl:
		v := f.get(ins.a)
		if v.P != nil {
			m.finish(ins, termV(m.c.BvNot(m.term(v, ins.n))))
		} else {
			m.finish(ins, Value{N: maskW(^v.N, ins.n.w)})
		}
	case oLoad:
		a := f.get(ins.a)
		if p, ok := a.P.(*Value); ok {
			if _, bad := p.P.(*poisonT); bad {
				// reading a poisoned cell is fine until it is used
			}
			m.finish(ins, m.load(p))
		} else if se, ok := a.P.(*symElem); ok {
			m.finish(ins, m.symRead(se))
		} else {
			m.deref(a)
		}
	case oStore:
		v := f.get(ins.b)
		p := m.deref(f.get(ins.a))
		if m.loc != nil {
			m.storeT(p, v, storeType(ins))
		} else {
			m.store(p, v)
		}
		m.finish(ins, Value{})
	case oCall:
		args := make([]Value, len(ins.args))
		for i, a := range ins.args {
			args[i] = f.get(a)
		}
		m.enter(ins.fn, nil, args, ins.dst, false)
	case oCallClo:
		args := make([]Value, len(ins.args))
		for i, a := range ins.args {
			args[i] = f.get(a)
		}
		clo, fn := m.closure(f.get(ins.a))
		m.enter(fn, clo, args, ins.dst, false)
	case oInvoke:
		fn, args := m.resolveInvoke(ins, f)
		m.enter(fn, nil, args, ins.dst, false)
	case oBuiltin:
		args := make([]Value, len(ins.args))
		for i, a := range ins.args {
			args[i] = f.get(a)
		}
		m.finish(ins, m.builtin(ins, args))
	case oGo:
		if m.cfg.Debug {
			fmt.Println("go statement at", m.where())
		}
		panic(unsupported{"go statement"})
	case oDefer:
		args := make([]Value, len(ins.args))
		for i, a := range ins.args {
			args[i] = f.get(a)
		}
		d := &deferRec{args: args}
		switch opcode(ins.d) {
		case oCall:
			d.clo = &Closure{Fn: ins.fn}
		case oCallClo:
			v := f.get(ins.a)
			if c, ok := v.P.(*Closure); ok {
				d.clo = c
			} else if v.P != nil {
				panic(unsupported{"defer of non-closure"})
			}
		case oInvoke:
			fn, as := m.resolveInvoke(ins, f)
			d.clo, d.args = &Closure{Fn: fn}, as
		case oBuiltin:
			d.bi = ins
		}
		f = m.cur()
		d.next = f.defers
		f.defers = d
		f.pc++
	case oRunDefers:
		if f.defers == nil {
			f.pc++
			return false
		}
		d := f.defers
		f.defers = d.next
		m.callDeferred(d)
	case oPanic:
		v := f.get(ins.a)
		if v.P == nil {
			v = m.runtimeError("panic called with nil argument")
		}
		panic(goPanic{v})
	case oReturn:
		var v Value
		switch len(ins.args) {
		case 0:
		case 1:
			v = f.get(ins.args[0])
		default:
			vs := make([]Value, len(ins.args))
			for i, a := range ins.args {
				vs[i] = f.get(a)
			}
			v = tuple(vs...)
		}
		if m.loc != nil && len(m.frames) == m.loc.depth {
			if m.loc.block != -1 {
				m.abort("return")
			}
			m.loc.ret = v
			return true
		}
		m.doReturn(v)
	case oIf:
		return m.execIf(f, ins)
	case oJump:
		return m.jump(f, f.fn.blocks[f.blk].succs[0])
	case oCopy:
		m.finish(ins, f.get(ins.a))
	case oConv:
		m.conv(f, ins)
	case oMakeIface:
		m.finish(ins, Value{P: &Iface{T: ins.typ, V: f.get(ins.a)}})
	case oMakeClosure:
		free := make([]Value, len(ins.args))
		for i, a := range ins.args {
			free[i] = f.get(a)
		}
		m.finish(ins, Value{P: &Closure{Fn: ins.fn, Free: free}})
	case oMakeMap:
		m.finish(ins, Value{P: m.newMap()})
	case oMakeSlice:
		n := int64(m.conc(f.get(ins.a)))
		c := int64(m.conc(f.get(ins.b)))
		if n < 0 || n > 1<<28 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<28 {
			m.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<22 {
			panic(unsupported{"huge slice"})
		}
		a := make([]Value, c)
		m.fillZero(a, ins.typ.T)
		m.noteFresh(a)
		m.finish(ins, mkSlice(a[:n]))
	case oMakeChan:
		m.allocSeq++
		m.finish(ins, Value{P: &Chan{Cap: int(m.conc(f.get(ins.a))), ID: int(m.allocSeq)}})
	case oField:
		m.finish(ins, agg(f.get(ins.a))[ins.idx])
	case oFieldAddr:
		p := m.deref(f.get(ins.a))
		m.finish(ins, ptrV(&agg(*p)[ins.idx]))
	case oIndex:
		m.execIndex(f, ins)
	case oIndexAddr:
		m.execIndexAddr(f, ins)
	case oLookup:
		m.execLookup(f, ins)
	case oMapUpdate:
		mp := f.get(ins.a)
		if mp.P == nil {
			panic(goPanic{m.plainError("assignment to entry in nil map")})
		}
		mm, ok := mp.P.(*Map)
		if !ok {
			panic(unsupported{fmt.Sprintf("map expected, got %s", show(mp, 1))})
		}
		m.mapSet(mm, f.get(ins.b), copyVal(f.get(ins.c)), ins.typ2)
		m.finish(ins, Value{})
	case oRange:
		m.execRange(f, ins)
	case oNext:
		m.execNext(f, ins)
	case oSlice:
		m.execSlice(f, ins)
	case oSlice2Arr:
		s := sliceOf(f.get(ins.a))
		if len(s) < ins.idx {
			m.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), ins.idx)
		}
		m.finish(ins, ptrV(&Value{P: &Agg{s[:ins.idx:ins.idx]}}))
	case oTypeAssert:
		m.execTypeAssert(f, ins)
	case oExtract:
		m.finish(ins, agg(f.get(ins.a))[ins.idx])
	case oSend:
		ch, ok := f.get(ins.a).P.(*Chan)
		if !ok || ch.Closed || len(ch.Buf) >= ch.Cap {
			panic(unsupported{"blocking send"})
		}
		m.chanPush(ch, f.get(ins.b))
		m.finish(ins, Value{})
	case oRecv:
		m.execRecv(f, ins)
	case oSelect:
		m.execSelect(f, ins)
	default:
		panic(unsupported{"instruction " + ins.name})
	}
	return false
}

func (m *M) fillZero(a []Value, t types.Type) {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a {
			a[i] = m.zero(t)
		}
	}
}

func (m *M) plainError(s string) Value {
	t := m.p.NamedType("runtime", "plainError")
	if t == nil {
		return m.runtimeError(s)
	}
	return Value{P: &Iface{T: m.canon(t), V: str(s)}}
}

func (m *M) closure(v Value) (*Closure, *Func) {
	switch c := v.P.(type) {
	case *Closure:
		return c, c.Fn
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *poisonT:
		panic(unsupported{"poison function: " + c.why})
	}
	panic(unsupported{fmt.Sprintf("function expected, got %T", v.P)})
}

type methKey struct {
	t  *Type
	id string
}
type implKey struct{ t, i *Type }

func (m *M) method(t *Type, id string, meth *types.Func) *Func {
	k := methKey{t, id}
	if f, ok := m.methC[k]; ok {
		return f
	}
	m.p.mu.Lock()
	sel := m.p.SSA.MethodSets.MethodSet(t.T).Lookup(meth.Pkg(), meth.Name())
	m.p.mu.Unlock()
	var f *Func
	if sel != nil {
		if s := m.p.SSA.MethodValue(sel); s != nil {
			f = m.funcFor(s)
		}
	}
	m.methC[k] = f
	return f
}

func (m *M) methodByName(t *Type, name string) *Func {
	k := methKey{t, "#" + name}
	if f, ok := m.methC[k]; ok {
		return f
	}
	m.p.mu.Lock()
	ms := m.p.SSA.MethodSets.MethodSet(t.T)
	m.p.mu.Unlock()
	var f *Func
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if s := m.p.SSA.MethodValue(ms.At(i)); s != nil {
				f = m.funcFor(s)
			}
		}
	}
	m.methC[k] = f
	return f
}

func (m *M) implements(t, i *Type) bool {
	k := implKey{t, i}
	if b, ok := m.implC[k]; ok {
		return b
	}
	b := types.Implements(t.T, i.U.(*types.Interface))
	m.implC[k] = b
	return b
}

func (m *M) resolveInvoke(ins *Instr, f *Frame) (*Func, []Value) {
	v := f.get(ins.a)
	switch i := v.P.(type) {
	case *Iface:
		fn := m.method(i.T, ins.name, ins.meth)
		if fn == nil {
			panic(unsupported{"no method " + ins.name + " on " + i.T.String()})
		}
		args := make([]Value, len(ins.args)+1)
		args[0] = i.V
		for k, a := range ins.args {
			args[k+1] = f.get(a)
		}
		return fn, args
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *poisonT:
		panic(unsupported{"poison interface: " + i.why})
	}
	panic(unsupported{fmt.Sprintf("interface expected, got %T", v.P)})
}

// ---- arithmetic ----

func (m *M) binop(tok token.Token, n, n2 num, t *Type, x, y Value) Value {
	switch tok {
	case token.EQL:
		return m.eq(x, y, t)
	case token.NEQ:
		v := m.eq(x, y, t)
		if v.P == nil {
			return Value{N: v.N ^ 1}
		}
		return termV(m.c.Not(v.term()))
	}
	if n.isStr {
		switch tok {
		case token.ADD:
			m.chkPoison(x, y)
			return concat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	}
	if n.w == 0 {
		m.chkPoison(x, y)
		panic(unsupported{"binop on " + t.String()})
	}
	if x.P == nil && y.P == nil {
		return m.binConc(tok, n, n2, x.N, y.N)
	}
	m.chkPoison(x, y)
	c := m.c
	if n.float {
		if n.w == 32 {
			panic(unsupported{"symbolic float32"})
		}
		a, b := m.term(x, n), m.term(y, n)
		switch tok {
		case token.ADD:
			return termV(c.FOp(smt.OpFAdd, smt.FP, a, b))
		case token.SUB:
			return termV(c.FOp(smt.OpFSub, smt.FP, a, b))
		case token.MUL:
			return termV(c.FOp(smt.OpFMul, smt.FP, a, b))
		case token.QUO:
			return termV(c.FOp(smt.OpFDiv, smt.FP, a, b))
		case token.LSS:
			return termV(c.FOp(smt.OpFLt, smt.Bool, a, b))
		case token.LEQ:
			return termV(c.FOp(smt.OpFLe, smt.Bool, a, b))
		case token.GTR:
			return termV(c.FOp(smt.OpFLt, smt.Bool, b, a))
		case token.GEQ:
			return termV(c.FOp(smt.OpFLe, smt.Bool, b, a))
		}
		panic(unsupported{"float op"})
	}
	if n.w == 1 {
		panic(unsupported{"bool op " + tok.String()})
	}
	if tok == token.SHL || tok == token.SHR {
		return m.shift(tok, n, n2, x, y)
	}
	a, b := m.term(x, n), m.term(y, n)
	switch tok {
	case token.ADD:
		return termV(c.Add(a, b))
	case token.SUB:
		return termV(c.Sub(a, b))
	case token.MUL:
		return termV(c.Mul(a, b))
	case token.QUO, token.REM:
		if y.P == nil {
			if y.N == 0 {
				m.rtPanic("integer divide by zero")
			}
		} else if m.decide(c.Eq(b, c.BV(0, smt.Sort(n.w)))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case tok == token.QUO && n.signed:
			return termV(c.Sdiv(a, b))
		case tok == token.QUO:
			return termV(c.Udiv(a, b))
		case n.signed:
			return termV(c.Srem(a, b))
		}
		return termV(c.Urem(a, b))
	case token.AND:
		return termV(c.BvAnd(a, b))
	case token.OR:
		return termV(c.BvOr(a, b))
	case token.XOR:
		return termV(c.BvXor(a, b))
	case token.AND_NOT:
		return termV(c.BvAnd(a, c.BvNot(b)))
	case token.LSS:
		return m.cmp(a, b, n.signed, false)
	case token.LEQ:
		return m.cmp(a, b, n.signed, true)
	case token.GTR:
		return m.cmp(b, a, n.signed, false)
	case token.GEQ:
		return m.cmp(b, a, n.signed, true)
	}
	panic(unsupported{"binop " + tok.String()})
}

func (m *M) chkPoison(vs ...Value) {
	for _, v := range vs {
		if p, ok := isPoison(v); ok {
			panic(unsupported{"poison: " + p.why})
		}
	}
}

func (m *M) cmp(a, b *smt.Term, signed, orEq bool) Value {
	switch {
	case signed && orEq:
		return termV(m.c.Sle(a, b))
	case signed:
		return termV(m.c.Slt(a, b))
	case orEq:
		return termV(m.c.Ule(a, b))
	}
	return termV(m.c.Ult(a, b))
}

func (m *M) shift(tok token.Token, n, n2 num, x, y Value) Value {
	c := m.c
	w := smt.Sort(n.w)
	a := m.term(x, n)
	b := m.term(y, n2)
	if y.P == nil {
		s := y.N
		if n2.signed && sext(s, n2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if s >= uint64(n.w) {
			if tok == token.SHR && n.signed {
				return termV(c.Ashr(a, c.BV(uint64(n.w-1), w)))
			}
			return Value{}
		}
		b = c.BV(s, w)
	} else {
		if n2.signed && m.decide(c.Slt(b, c.BV(0, b.Sort))) {
			m.rtPanic("negative shift amount")
		}
		if b.Sort > w {
			big := c.Ule(c.BV(uint64(n.w), b.Sort), b)
			lim := c.Ite(big, c.BV(uint64(n.w), b.Sort), b)
			b = c.Extract(lim, int(w)-1, 0)
		} else if b.Sort < w {
			b = c.Zext(b, w)
		}
	}
	switch {
	case tok == token.SHL:
		return termV(c.Shl(a, b))
	case n.signed:
		return termV(c.Ashr(a, b))
	}
	return termV(c.Lshr(a, b))
}

func (m *M) binConc(tok token.Token, n, n2 num, x, y uint64) Value {
	if n.float {
		if n.w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			f := func(r float32) Value { return Value{N: uint64(math.Float32bits(r))} }
			switch tok {
			case token.ADD:
				return f(a + b)
			case token.SUB:
				return f(a - b)
			case token.MUL:
				return f(a * b)
			case token.QUO:
				return f(a / b)
			case token.LSS:
				return boolV(a < b)
			case token.LEQ:
				return boolV(a <= b)
			case token.GTR:
				return boolV(a > b)
			case token.GEQ:
				return boolV(a >= b)
			}
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		switch tok {
		case token.ADD:
			return fltV(a + b)
		case token.SUB:
			return fltV(a - b)
		case token.MUL:
			return fltV(a * b)
		case token.QUO:
			return fltV(a / b)
		case token.LSS:
			return boolV(a < b)
		case token.LEQ:
			return boolV(a <= b)
		case token.GTR:
			return boolV(a > b)
		case token.GEQ:
			return boolV(a >= b)
		}
	}
	w := n.w
	switch tok {
	case token.ADD:
		return Value{N: maskW(x+y, w)}
	case token.SUB:
		return Value{N: maskW(x-y, w)}
	case token.MUL:
		return Value{N: maskW(x*y, w)}
	case token.QUO:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if n.signed {
			a, b := sext(x, w), sext(y, w)
			if b == -1 {
				return Value{N: maskW(uint64(-a), w)}
			}
			return Value{N: maskW(uint64(a/b), w)}
		}
		return Value{N: x / y}
	case token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if n.signed {
			a, b := sext(x, w), sext(y, w)
			if b == -1 {
				return Value{}
			}
			return Value{N: maskW(uint64(a%b), w)}
		}
		return Value{N: x % y}
	case token.AND:
		return Value{N: x & y}
	case token.OR:
		return Value{N: x | y}
	case token.XOR:
		return Value{N: x ^ y}
	case token.AND_NOT:
		return Value{N: x &^ y}
	case token.SHL:
		if n2.signed && sext(y, n2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if y >= 64 {
			return Value{}
		}
		return Value{N: maskW(x<<y, w)}
	case token.SHR:
		if n2.signed && sext(y, n2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if n.signed {
			if y >= 64 {
				y = 63
			}
			return Value{N: maskW(uint64(sext(x, w)>>y), w)}
		}
		if y >= 64 {
			return Value{}
		}
		return Value{N: x >> y}
	}
	if n.signed {
		a, b := sext(x, w), sext(y, w)
		switch tok {
		case token.LSS:
			return boolV(a < b)
		case token.LEQ:
			return boolV(a <= b)
		case token.GTR:
			return boolV(a > b)
		case token.GEQ:
			return boolV(a >= b)
		}
	}
	switch tok {
	case token.LSS:
		return boolV(x < y)
	case token.LEQ:
		return boolV(x <= y)
	case token.GTR:
		return boolV(x > y)
	case token.GEQ:
		return boolV(x >= y)
	}
	panic(unsupported{"binop " + tok.String()})
}

// eqStr returns the equality of two strings as a term or constant.
func (m *M) eqStr(x, y Value) Value {
	m.chkPoison(x, y)
	n := strLen(x)
	if n != strLen(y) {
		return Value{}
	}
	if n == 0 {
		return boolV(true)
	}
	a, b := x.P.(*Str), y.P.(*Str)
	if a.T == nil && b.T == nil {
		return boolV(a.S == b.S)
	}
	var ts []*smt.Term
	for i := 0; i < n; i++ {
		u, v := strByte(x, i), strByte(y, i)
		if u.P == nil && v.P == nil {
			if u.N != v.N {
				return Value{}
			}
			continue
		}
		e := m.c.Eq(m.term(u, num{w: 8}), m.term(v, num{w: 8}))
		if e == m.c.False {
			return Value{}
		}
		ts = append(ts, e)
	}
	return termV(m.c.And(ts...))
}

func (m *M) strLess(x, y Value, orEq bool) Value {
	m.chkPoison(x, y)
	a, ok1 := concStr(x)
	b, ok2 := concStr(y)
	if ok1 && ok2 {
		if orEq {
			return boolV(a <= b)
		}
		return boolV(a < b)
	}
	n, k := strLen(x), strLen(y)
	l := n
	if k < l {
		l = k
	}
	var r *smt.Term
	if n < k {
		r = m.c.True
	} else if n == k {
		r = m.c.B(orEq)
	} else {
		r = m.c.False
	}
	for i := l - 1; i >= 0; i-- {
		u, v := m.term(strByte(x, i), num{w: 8}), m.term(strByte(y, i), num{w: 8})
		r = m.c.Or(m.c.Ult(u, v), m.c.And(m.c.Eq(u, v), r))
	}
	return termV(r)
}

func (m *M) eq(x, y Value, t *Type) Value {
	switch u := t.U.(type) {
	case *types.Basic:
		n := numOf(u)
		if n.isStr {
			return m.eqStr(x, y)
		}
		if n.w == 0 {
			m.chkPoison(x, y)
			return boolV(x.P == y.P && x.N == y.N)
		}
		if x.P == nil && y.P == nil {
			if n.float {
				if n.w == 32 {
					return boolV(math.Float32frombits(uint32(x.N)) == math.Float32frombits(uint32(y.N)))
				}
				return boolV(math.Float64frombits(x.N) == math.Float64frombits(y.N))
			}
			return boolV(x.N == y.N)
		}
		if n.float {
			return termV(m.c.FOp(smt.OpFEq, smt.Bool, m.term(x, n), m.term(y, n)))
		}
		return termV(m.c.Eq(m.term(x, n), m.term(y, n)))
	case *types.Interface:
		return m.eqIface(x, y)
	case *types.Struct:
		if m.isReflectValue(t) {
			panic(unsupported{"compare reflect.Value"})
		}
		a, b := agg(x), agg(y)
		r := m.c.True
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := m.eq(a[i], b[i], m.canon(u.Field(i).Type()))
			if e.P == nil {
				if e.N == 0 {
					return Value{}
				}
				continue
			}
			r = m.c.And(r, e.term())
		}
		return termV(r)
	case *types.Array:
		a, b := agg(x), agg(y)
		r := m.c.True
		et := m.canon(u.Elem())
		for i := range a {
			e := m.eq(a[i], b[i], et)
			if e.P == nil {
				if e.N == 0 {
					return Value{}
				}
				continue
			}
			r = m.c.And(r, e.term())
		}
		return termV(r)
	}
	m.chkPoison(x, y)
	return boolV(x.P == y.P)
}

func (m *M) eqIface(x, y Value) Value {
	m.chkPoison(x, y)
	if x.P == nil || y.P == nil {
		return boolV(x.P == nil && y.P == nil)
	}
	a, ok1 := x.P.(*Iface)
	b, ok2 := y.P.(*Iface)
	if !ok1 || !ok2 {
		// interface compared with a concrete value: not produced by SSA
		panic(unsupported{"mixed interface comparison"})
	}
	if a.T != b.T {
		return Value{}
	}
	switch a.T.U.(type) {
	case *types.Slice, *types.Map, *types.Signature:
		m.rtPanic("comparing uncomparable type %s", a.T.String())
	}
	return m.eq(a.V, b.V, a.T)
}

// ---- conversions ----

func (m *M) conv(f *Frame, ins *Instr) {
	v := f.get(ins.a)
	m.chkPoison(v)
	src, dst := ins.n, ins.n2
	ts, td := ins.typ.U, ins.typ2.U
	if src.w > 0 && dst.w > 0 {
		m.finish(ins, m.convNum(v, src, dst))
		return
	}
	if sl, ok := td.(*types.Slice); ok && src.isStr {
		if numOf(sl.Elem()).w == 8 {
			a := bytesOfStr(v)
			m.noteFresh(a)
			m.finish(ins, mkSlice(a))
			return
		}
		if s, ok := concStr(v); ok {
			rs := []rune(s)
			a := make([]Value, len(rs))
			for i, r := range rs {
				a[i].N = uint64(uint32(r))
			}
			m.noteFresh(a)
			m.finish(ins, mkSlice(a))
			return
		}
		var a []Value
		for i := 0; i < strLen(v); {
			r, w := m.decodeRune(v, i)
			a = append(a, r)
			i += w
		}
		m.noteFresh(a)
		m.finish(ins, mkSlice(a))
		return
	}
	if sl, ok := ts.(*types.Slice); ok && dst.isStr {
		if numOf(sl.Elem()).w == 8 {
			m.finish(ins, strOfBytes(sliceOf(v)))
			return
		}
		var out Value
		for _, r := range sliceOf(v) {
			out = concat(out, m.runeStr(r, num{w: 32, signed: true}))
		}
		m.finish(ins, out)
		return
	}
	if src.w > 0 && dst.isStr {
		m.finish(ins, m.runeStr(v, src))
		return
	}
	if src.isStr && dst.isStr {
		m.finish(ins, v)
		return
	}
	// pointers, unsafe pointers, same-underlying types
	switch td.(type) {
	case *types.Pointer, *types.Basic, *types.Slice, *types.Signature, *types.Map, *types.Chan, *types.Struct:
		if b, ok := td.(*types.Basic); ok && b.Kind() == types.Uintptr {
			m.finish(ins, Value{N: ptrNum(v)})
			return
		}
		m.finish(ins, v)
		return
	}
	panic(unsupported{"conversion " + ins.typ.String() + " to " + ins.typ2.String()})
}

func ptrNum(v Value) uint64 {
	switch p := v.P.(type) {
	case nil:
		return v.N
	case *Value:
		return uint64(uintptr(unsafe.Pointer(p)))
	}
	return 1
}

func (m *M) runeStr(v Value, n num) Value {
	if v.P == nil {
		r := sext(v.N, n.w)
		if !n.signed {
			r = int64(v.N)
		}
		if r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return str(string(rune(r)))
	}
	t := m.term(v, n)
	w := t.Sort
	c := m.c
	if m.decide(c.Ult(t, c.BV(0x80, w))) {
		return strOfBytes([]Value{termV(c.Extract(t, 7, 0))})
	}
	if w == 8 {
		hi := c.BvOr(c.Lshr(t, c.BV(6, 8)), c.BV(0xc0, 8))
		lo := c.BvOr(c.BvAnd(t, c.BV(0x3f, 8)), c.BV(0x80, 8))
		return strOfBytes([]Value{termV(hi), termV(lo)})
	}
	b := func(sh uint64, mask, or uint64) Value {
		return termV(c.Extract(c.BvOr(c.BvAnd(c.Lshr(t, c.BV(sh, w)), c.BV(mask, w)), c.BV(or, w)), 7, 0))
	}
	if m.decide(c.Ult(t, c.BV(0x800, w))) {
		return strOfBytes([]Value{b(6, 0x1f, 0xc0), b(0, 0x3f, 0x80)})
	}
	bad := c.Or(c.Ult(c.BV(0x10ffff, w), t), c.And(c.Ule(c.BV(0xd800, w), t), c.Ule(t, c.BV(0xdfff, w))))
	if m.decide(bad) {
		return str("\ufffd")
	}
	if m.decide(c.Ult(t, c.BV(0x10000, w))) {
		return strOfBytes([]Value{b(12, 0x0f, 0xe0), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)})
	}
	return strOfBytes([]Value{b(18, 0x07, 0xf0), b(12, 0x3f, 0x80), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)})
}

// decodeRune decodes the rune at byte i of the string v.
func (m *M) decodeRune(v Value, i int) (Value, int) {
	n := strLen(v)
	c := m.c
	b8 := num{w: 8}
	get := func(k int) *smt.Term { return m.term(strByte(v, k), b8) }
	in := func(t *smt.Term, lo, hi uint64) *smt.Term {
		return c.And(c.Ule(c.BV(lo, 8), t), c.Ule(t, c.BV(hi, 8)))
	}
	bad := Value{N: 0xfffd}
	b0 := get(i)
	if m.decide(c.Ult(b0, c.BV(0x80, 8))) {
		return termV(c.Zext(b0, 32)), 1
	}
	z := func(t *smt.Term, mask uint64, sh uint64) *smt.Term {
		return c.Shl(c.BvAnd(c.Zext(t, 32), c.BV(mask, 32)), c.BV(sh, 32))
	}
	if m.decide(in(b0, 0xc2, 0xdf)) {
		if i+1 >= n || !m.decide(in(get(i+1), 0x80, 0xbf)) {
			return bad, 1
		}
		return termV(c.BvOr(z(b0, 0x1f, 6), z(get(i+1), 0x3f, 0))), 2
	}
	if m.decide(in(b0, 0xe0, 0xef)) {
		if i+1 >= n {
			return bad, 1
		}
		b1 := get(i + 1)
		e0, ed := c.Eq(b0, c.BV(0xe0, 8)), c.Eq(b0, c.BV(0xed, 8))
		ok := c.And(in(b1, 0x80, 0xbf), c.Or(c.Not(e0), c.Ule(c.BV(0xa0, 8), b1)), c.Or(c.Not(ed), c.Ule(b1, c.BV(0x9f, 8))))
		if !m.decide(ok) || i+2 >= n || !m.decide(in(get(i+2), 0x80, 0xbf)) {
			return bad, 1
		}
		return termV(c.BvOr(c.BvOr(z(b0, 0x0f, 12), z(b1, 0x3f, 6)), z(get(i+2), 0x3f, 0))), 3
	}
	if m.decide(in(b0, 0xf0, 0xf4)) {
		if i+1 >= n {
			return bad, 1
		}
		b1 := get(i + 1)
		f0, f4 := c.Eq(b0, c.BV(0xf0, 8)), c.Eq(b0, c.BV(0xf4, 8))
		ok := c.And(in(b1, 0x80, 0xbf), c.Or(c.Not(f0), c.Ule(c.BV(0x90, 8), b1)), c.Or(c.Not(f4), c.Ule(b1, c.BV(0x8f, 8))))
		if !m.decide(ok) || i+3 >= n || !m.decide(in(get(i+2), 0x80, 0xbf)) || !m.decide(in(get(i+3), 0x80, 0xbf)) {
			return bad, 1
		}
		return termV(c.BvOr(c.BvOr(z(b0, 0x07, 18), z(b1, 0x3f, 12)), c.BvOr(z(get(i+2), 0x3f, 6), z(get(i+3), 0x3f, 0)))), 4
	}
	return bad, 1
}

func (m *M) convNum(v Value, s, d num) Value {
	if v.P == nil {
		return convConc(v.N, s, d)
	}
	c := m.c
	t := m.term(v, s)
	switch {
	case s.float && d.float:
		if s.w == d.w {
			return v
		}
		panic(unsupported{"symbolic float32 conversion"})
	case s.float:
		return m.f2i(t, d)
	case d.float:
		if d.w == 32 {
			panic(unsupported{"symbolic float32 conversion"})
		}
		if s.signed {
			return termV(c.FOp(smt.OpFFromS, smt.FP, t))
		}
		return termV(c.FOp(smt.OpFFromU, smt.FP, t))
	case s.w == 1 || d.w == 1:
		return v
	case d.w < s.w:
		return termV(c.Extract(t, int(d.w)-1, 0))
	case d.w > s.w && s.signed:
		return termV(c.Sext(t, smt.Sort(d.w)))
	case d.w > s.w:
		return termV(c.Zext(t, smt.Sort(d.w)))
	}
	return v
}

// f2i follows the gc compiler on amd64: out-of-range values give the
// "integer indefinite" 0x8000000000000000 (see also convConc).
func (m *M) f2i(t *smt.Term, d num) Value {
	c := m.c
	indef := c.BV(1<<63, 64)
	two63 := c.F(9223372036854775808.0)
	mtwo63 := c.F(-9223372036854775808.0)
	// signed 64-bit truncation (CVTTSD2SQ)
	cvt := func(x *smt.Term) *smt.Term {
		inr := c.And(c.FOp(smt.OpFLe, smt.Bool, mtwo63, x), c.FOp(smt.OpFLt, smt.Bool, x, two63))
		return c.Ite(inr, c.FOp(smt.OpFToS, 64, x), indef)
	}
	if d.w == 64 && !d.signed {
		// x < 2^63: cvt(x); otherwise cvt(x-2^63) | 1<<63
		lt := c.FOp(smt.OpFLt, smt.Bool, t, two63)
		hi := c.BvOr(cvt(c.FOp(smt.OpFSub, smt.FP, t, two63)), indef)
		return termV(c.Ite(lt, cvt(t), hi))
	}
	r := cvt(t)
	if d.w < 32 || d.w == 32 && d.signed {
		// CVTTSD2SL
		inr := c.And(c.FOp(smt.OpFLt, smt.Bool, c.F(-2147483649.0), t), c.FOp(smt.OpFLt, smt.Bool, t, c.F(2147483648.0)))
		r = c.Ite(inr, c.Extract(r, 31, 0), c.BV(1<<31, 32))
	}
	if d.w < uint8(r.Sort) {
		r = c.Extract(r, int(d.w)-1, 0)
	}
	return termV(r)
}

func convConc(x uint64, s, d num) Value {
	switch {
	case s.float:
		var f float64
		if s.w == 32 {
			f = float64(math.Float32frombits(uint32(x)))
		} else {
			f = math.Float64frombits(x)
		}
		if d.float {
			if d.w == 32 {
				return Value{N: uint64(math.Float32bits(float32(f)))}
			}
			return fltV(f)
		}
		switch {
		case d.w == 64 && !d.signed:
			return Value{N: uint64(f)}
		case d.w < 32 || d.signed && d.w == 32:
			return Value{N: maskW(uint64(int32(f)), d.w)}
		}
		return Value{N: maskW(uint64(int64(f)), d.w)}
	case d.float:
		var f float64
		if s.signed {
			i := sext(x, s.w)
			if d.w == 32 {
				return Value{N: uint64(math.Float32bits(float32(i)))}
			}
			f = float64(i)
		} else {
			if d.w == 32 {
				return Value{N: uint64(math.Float32bits(float32(x)))}
			}
			f = float64(x)
		}
		return fltV(f)
	case s.signed:
		return Value{N: maskW(uint64(sext(x, s.w)), d.w)}
	}
	return Value{N: maskW(x, d.w)}
}

// ---- indexing ----

func (m *M) symIndexOK(idx Value, n2 num, n int) *smt.Term {
	t := m.term(idx, n2)
	if n2.w < 64 {
		if n2.signed {
			t = m.c.Sext(t, 64)
		} else {
			t = m.c.Zext(t, 64)
		}
	}
	if !m.decide(m.c.Ult(t, m.c.BV(uint64(n), 64))) {
		m.rtPanic("index out of range [symbolic] with length %d", n)
	}
	return t
}

func (m *M) execIndex(f *Frame, ins *Instr) {
	x, idx := f.get(ins.a), f.get(ins.b)
	m.chkPoison(x, idx)
	if ins.n.isStr {
		n := strLen(x)
		if idx.P == nil {
			i := sext(idx.N, ins.n2.w)
			if !ins.n2.signed {
				i = int64(idx.N)
			}
			if i < 0 || i >= int64(n) {
				m.rtPanic("index out of range [%d] with length %d", i, n)
			}
			m.finish(ins, strByte(x, int(i)))
			return
		}
		t := m.symIndexOK(idx, ins.n2, n)
		m.finish(ins, m.symRead(&symElem{a: bytesOfStr(x), idx: t, n: num{w: 8}}))
		return
	}
	a := agg(x)
	if idx.P == nil {
		i := sext(idx.N, ins.n2.w)
		if !ins.n2.signed {
			i = int64(idx.N)
		}
		if i < 0 || i >= int64(len(a)) {
			m.rtPanic("index out of range [%d] with length %d", i, len(a))
		}
		m.finish(ins, a[i])
		return
	}
	t := m.symIndexOK(idx, ins.n2, len(a))
	var et num
	if at, ok := ins.in.(interface{ Type() types.Type }); ok {
		et = numOf(at.Type())
	}
	m.finish(ins, m.symRead(&symElem{a: a, idx: t, n: et}))
}

func (m *M) execIndexAddr(f *Frame, ins *Instr) {
	x, idx := f.get(ins.a), f.get(ins.b)
	m.chkPoison(idx)
	var a []Value
	if ins.commaOk {
		a = agg(*m.deref(x))
	} else {
		a = sliceOf(x)
	}
	if idx.P == nil {
		i := sext(idx.N, ins.n2.w)
		if !ins.n2.signed {
			i = int64(idx.N)
		}
		if i < 0 || i >= int64(len(a)) {
			m.rtPanic("index out of range [%d] with length %d", i, len(a))
		}
		m.finish(ins, ptrV(&a[i]))
		return
	}
	t := m.symIndexOK(idx, ins.n2, len(a))
	if ins.c == 1 && ins.n.w > 0 && scalarArr(a) {
		m.finish(ins, Value{P: &symElem{a: a, idx: t, n: ins.n}})
		return
	}
	i := m.concretize(t)
	m.finish(ins, ptrV(&a[i]))
}

func scalarArr(a []Value) bool {
	for _, v := range a {
		if v.P != nil {
			if _, ok := v.P.(*smt.Term); !ok {
				return false
			}
		}
	}
	return len(a) <= 4096
}

// symRead reads a[idx] for a symbolic in-range idx.
func (m *M) symRead(se *symElem) Value {
	a, c := se.a, m.c
	if se.n.w == 0 || !scalarArr(a) {
		return a[m.concretize(se.idx)]
	}
	// the index often has few possible values
	var cand []int
	if v := se.idx.SingleVar(); narrow(v) {
		d := m.domOf(v)
		md := smt.Model{}
		seen := map[int]bool{}
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(i&63)&1 == 1 {
				md[v.Name] = uint64(i)
				x := smt.Eval(se.idx, md)
				if x < uint64(len(a)) && !seen[int(x)] {
					seen[int(x)] = true
					cand = append(cand, int(x))
				}
			}
		}
	} else {
		for i := range a {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return a[0]
	}
	// group by value
	type grp struct {
		v   Value
		idx []int
	}
	var groups []*grp
	by := map[Value]*grp{}
	for _, i := range cand {
		g := by[a[i]]
		if g == nil {
			g = &grp{v: a[i]}
			by[a[i]] = g
			groups = append(groups, g)
		}
		g.idx = append(g.idx, i)
	}
	big := 0
	for i, g := range groups {
		if len(g.idx) > len(groups[big].idx) {
			big = i
		}
	}
	r := m.term(groups[big].v, se.n)
	for k := len(groups) - 1; k >= 0; k-- {
		if k == big {
			continue
		}
		g := groups[k]
		in := map[int]bool{}
		for _, i := range g.idx {
			in[i] = true
		}
		// ranges
		var ors []*smt.Term
		sortInts(g.idx)
		for s := 0; s < len(g.idx); {
			e := s
			for e+1 < len(g.idx) && g.idx[e+1] == g.idx[e]+1 {
				e++
			}
			lo, hi := uint64(g.idx[s]), uint64(g.idx[e])
			if lo == hi {
				ors = append(ors, c.Eq(se.idx, c.BV(lo, 64)))
			} else {
				ors = append(ors, c.And(c.Ule(c.BV(lo, 64), se.idx), c.Ule(se.idx, c.BV(hi, 64))))
			}
			s = e + 1
		}
		r = c.Ite(c.Or(ors...), m.term(g.v, se.n), r)
	}
	return termV(r)
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (m *M) execSlice(f *Frame, ins *Instr) {
	x := f.get(ins.a)
	m.chkPoison(x)
	const none = -1 << 30
	bound := func(o int32, def int) int {
		if o == none {
			return def
		}
		return int(int64(m.conc(f.get(o))))
	}
	if ins.n.isStr {
		n := strLen(x)
		lo, hi := bound(ins.b, 0), bound(ins.c, n)
		if hi < 0 || hi > n {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		m.finish(ins, substr(x, lo, hi))
		return
	}
	var a []Value
	isNil := false
	if ins.commaOk {
		a = agg(*m.deref(x))
	} else {
		a = sliceOf(x)
		isNil = x.P == nil
	}
	lo := bound(ins.b, 0)
	hi := bound(ins.c, len(a))
	mx := bound(ins.d, cap(a))
	if mx < 0 || mx > cap(a) {
		m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cap(a))
	}
	if hi < 0 || hi > mx {
		m.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cap(a))
	}
	if lo < 0 || lo > hi {
		m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
	if isNil {
		m.finish(ins, Value{})
		return
	}
	m.finish(ins, mkSlice(a[lo:hi:mx]))
}

// ---- type assertions ----

func (m *M) execTypeAssert(f *Frame, ins *Instr) {
	v := f.get(ins.a)
	m.chkPoison(v)
	i, _ := v.P.(*Iface)
	_, toIface := ins.typ.U.(*types.Interface)
	ok := false
	var out Value
	if i != nil {
		if toIface {
			ok = m.implements(i.T, ins.typ)
			out = v
		} else if i.T == ins.typ {
			ok = true
			out = copyVal(i.V)
		}
	}
	if ins.commaOk {
		if !ok {
			out = m.zero(ins.typ.T)
		}
		m.finish(ins, tuple(out, boolV(ok)))
		return
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.T.String()
		}
		m.rtPanic("interface conversion: interface is %s, not %s", d, ins.typ.String())
	}
	m.finish(ins, out)
}

// ---- channels ----

func (m *M) chanPush(ch *Chan, v Value) {
	ch.Buf = append(ch.Buf[:len(ch.Buf):len(ch.Buf)], v)
	m.onUndo(func() { ch.Buf = ch.Buf[:len(ch.Buf)-1] })
}

func (m *M) chanPop(ch *Chan) Value {
	old := ch.Buf
	v := old[0]
	ch.Buf = old[1:]
	m.onUndo(func() { ch.Buf = old })
	return v
}

func (m *M) execRecv(f *Frame, ins *Instr) {
	ch, _ := f.get(ins.a).P.(*Chan)
	if ch == nil {
		panic(unsupported{"receive blocks"})
	}
	var v Value
	ok := true
	if len(ch.Buf) > 0 {
		v = m.chanPop(ch)
	} else if ch.Closed {
		v = m.zero(ins.typ.T)
		ok = false
	} else {
		panic(unsupported{"receive blocks"})
	}
	if ins.commaOk {
		m.finish(ins, tuple(v, boolV(ok)))
	} else {
		m.finish(ins, v)
	}
}
