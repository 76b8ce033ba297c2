package exec

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gosym/smt"
)

type intrinsic func(m *M, a []Value) Value

type redirect struct{ pkg, name string }

const (
	symPkg     = "verifharness/sym"
	modelPkg   = "verifharness/model"
	harnessPkg = "verifharness/h"
	repoMod    = "github.com/openrdap/rdap"
)

func isRepoPkg(p string) bool {
	return p == repoMod || strings.HasPrefix(p, repoMod+"/")
}

var intrinsics = map[string]intrinsic{}
var redirects = map[string]redirect{}
var pkgIntrinsics = map[string]func(m *M, s *ssa.Function, name string) intrinsic{}

// skipInit lists packages whose initialisers are not run (their state is modelled).
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "sync": true, "sync/atomic": true, "internal/poll": true,
	"internal/godebug": true, "internal/cpu": true, "os": false, "syscall": false,
	"internal/reflectlite": true, "unique": true, "internal/runtime/maps": true,
}

func nop(m *M, a []Value) Value  { return Value{} }
func ret0(m *M, a []Value) Value { return a[0] }

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func (m *M) newInput(kind, name string, w smt.Sort) *smt.Term {
	if m.loc != nil {
		m.abort("input")
	}
	v := m.c.Var(fmt.Sprintf("v%dw%d", len(m.inputs), w), w)
	m.inputs = append(m.inputs, Input{Kind: kind, Name: name, Var: v})
	return v
}

// assume adds a constraint, ending the path if it is infeasible.
func (m *M) assume(t *smt.Term) {
	if m.loc != nil {
		m.abort("assume")
	}
	switch m.implied(t) {
	case 1:
		m.shortcut(t, true)
		return
	case -1:
		m.shortcut(t, false)
		panic(pathEnd{outcome{kind: oInfeasible}})
	}
	if m.evalBool(t) {
		m.addPC(t)
		return
	}
	r, md := m.feasible(t)
	switch r {
	case smt.Unsat:
		panic(pathEnd{outcome{kind: oInfeasible}})
	case smt.Unknown:
		panic(pathEnd{outcome{kind: oBudgetOut, msg: "solver unknown"}})
	}
	m.model = md
	m.addPC(t)
}

// assertion checks a property; a feasible failure is a violation.
func (m *M) assertion(v Value, msg string) {
	if m.loc != nil {
		m.abort("assert")
	}
	if m.repIdx >= len(m.replay) {
		m.R.Asserts++
	}
	t, b, conc := m.condTerm(v)
	if conc {
		if m.repIdx >= len(m.replay) {
			m.R.AssertsTriv++
		}
		if !b {
			m.violation("assert", msg, m.model)
			panic(pathEnd{outcome{kind: oInfeasible}})
		}
		return
	}
	if m.repIdx < len(m.replay) {
		m.addPC(t)
		return
	}
	r, md := m.solve(m.not(t))
	if r == smt.Sat {
		m.violation("assert", msg, md)
	}
	if r == smt.Unsat {
		return // implied; nothing to add
	}
	m.assume(t)
}

func (m *M) inputVals(md smt.Model) []InputVal {
	out := make([]InputVal, len(m.inputs))
	for i, in := range m.inputs {
		out[i] = InputVal{Kind: in.Kind, Name: in.Name, Val: in.Val}
		if in.Var != nil {
			out[i].Val = md[in.Var.Name]
		}
	}
	return out
}

func (m *M) violation(kind, msg string, md smt.Model) {
	if m.repIdx < len(m.replay) {
		return
	}
	v := Violation{Kind: kind, Msg: msg, Inputs: m.inputVals(md), Where: m.where()}
	if m.ex != nil {
		m.ex.candidate(m, v)
	}
}

func mustStr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported{"symbolic string where a constant is needed"})
	}
	return s
}

func allASCII(m *M, v Value) bool {
	n := strLen(v)
	for i := 0; i < n; i++ {
		b := strByte(v, i)
		if b.P == nil {
			if b.N >= 0x80 {
				return false
			}
			continue
		}
		if m.implied(m.c.Ult(b.term(), m.c.BV(0x80, 8))) != 1 {
			return false
		}
	}
	return true
}

func (m *M) orig() Value {
	m.callOrig = true
	return Value{}
}

func (m *M) mapBytes(v Value, f func(t *smt.Term) *smt.Term, g func(b byte) byte) Value {
	n := strLen(v)
	out := make([]Value, n)
	for i := range out {
		b := strByte(v, i)
		if b.P == nil {
			out[i] = Value{N: uint64(g(byte(b.N)))}
		} else {
			out[i] = termV(f(b.term()))
		}
	}
	return strOfBytes(out)
}

func (m *M) lower(t *smt.Term) *smt.Term {
	c := m.c
	up := c.And(c.Ule(c.BV('A', 8), t), c.Ule(t, c.BV('Z', 8)))
	return c.Ite(up, c.Add(t, c.BV(32, 8)), t)
}

func (m *M) upper(t *smt.Term) *smt.Term {
	c := m.c
	lo := c.And(c.Ule(c.BV('a', 8), t), c.Ule(t, c.BV('z', 8)))
	return c.Ite(lo, c.Sub(t, c.BV(32, 8)), t)
}

func lowerB(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

func upperB(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

func (m *M) byteEq(x, y Value) Value {
	if x.P == nil && y.P == nil {
		return boolV(x.N == y.N)
	}
	return termV(m.c.Eq(m.term(x, num{w: 8}), m.term(y, num{w: 8})))
}

func (m *M) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return Value{}
	}
	r := m.c.True
	for i := range x {
		e := m.byteEq(x[i], y[i])
		if e.P == nil {
			if e.N == 0 {
				return Value{}
			}
			continue
		}
		r = m.c.And(r, e.term())
	}
	return termV(r)
}

func (m *M) indexBytes(s []Value, sep []Value) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if m.decideV(m.bytesEq(s[i:i+len(sep)], sep)) {
			return i
		}
	}
	return -1
}

func (m *M) bytesCompare(x, y []Value) Value {
	l := min(len(x), len(y))
	c := m.c
	var r *smt.Term
	switch {
	case len(x) < len(y):
		r = c.BV(^uint64(0), 64)
	case len(x) == len(y):
		r = c.BV(0, 64)
	default:
		r = c.BV(1, 64)
	}
	b8 := num{w: 8}
	for i := l - 1; i >= 0; i-- {
		u, v := m.term(x[i], b8), m.term(y[i], b8)
		r = c.Ite(c.Eq(u, v), r, c.Ite(c.Ult(u, v), c.BV(^uint64(0), 64), c.BV(1, 64)))
	}
	return termV(r)
}

func (m *M) ifaceStr(s string) Value {
	return Value{P: &Iface{T: m.canon(types.Typ[types.String]), V: str(s)}}
}

func (m *M) errorVal(pkg, typ string, fields ...Value) Value {
	t := m.p.NamedType(pkg, typ)
	p := m.alloc(t)
	for i, f := range fields {
		agg(*p)[i] = f
	}
	return Value{P: &Iface{T: m.canon(types.NewPointer(t)), V: ptrV(p)}}
}

func (m *M) newError(s string) Value {
	return m.errorVal("errors", "errorString", str(s))
}

func init() {

	// ---- harness API ----
	in := func(name, kind string, w smt.Sort) {
		reg(symPkg+"."+name, func(m *M, a []Value) Value { return termV(m.newInput(kind, mustStr(a[0]), w)) })
	}
	in("Byte", "byte", 8)
	in("Bool", "bool", smt.Bool)
	in("U16", "u16", 16)
	in("U32", "u32", 32)
	in("U64", "u64", 64)
	in("Float", "float", smt.FP)
	reg(symPkg+".Choice", func(m *M, a []Value) Value {
		n := int64(a[1].N)
		if n <= 0 {
			panic(pathEnd{outcome{kind: oInfeasible}})
		}
		t := m.newInput("choice", mustStr(a[0]), 8)
		if n == 1 {
			m.addPC(m.c.Eq(t, m.c.BV(0, 8)))
			return Value{}
		}
		if n < 256 {
			m.addPC(m.c.Ult(t, m.c.BV(uint64(n), 8)))
		}
		if !(smt.Eval(t, m.model) < uint64(n)) {
			md := smt.Model{}
			for k, v := range m.model {
				md[k] = v
			}
			md[t.Name] = 0
			m.model = md
		}
		return Value{N: m.concretize(t)}
	})
	reg(symPkg+".In", func(m *M, a []Value) Value { // In(name, set) byte: a byte from a constant set
		set := mustStr(a[1])
		t := m.newInput("byte", mustStr(a[0]), 8)
		var ors []*smt.Term
		for i := 0; i < len(set); i++ {
			ors = append(ors, m.c.Eq(t, m.c.BV(uint64(set[i]), 8)))
		}
		m.addPC(m.c.Or(ors...))
		if x, has := m.model[t.Name]; !has || strings.IndexByte(set, byte(x)) < 0 {
			md := smt.Model{}
			for k, v := range m.model {
				md[k] = v
			}
			md[t.Name] = uint64(set[0])
			m.model = md
		}
		if len(set) == 1 {
			return Value{N: uint64(set[0])}
		}
		return termV(t)
	})
	reg(symPkg+".Assume", func(m *M, a []Value) Value {
		t, b, conc := m.condTerm(a[0])
		if conc {
			if !b {
				if m.loc != nil {
					m.abort("assume")
				}
				panic(pathEnd{outcome{kind: oInfeasible}})
			}
			return Value{}
		}
		m.assume(t)
		return Value{}
	})
	reg(symPkg+".Assert", func(m *M, a []Value) Value { m.assertion(a[0], mustStr(a[1])); return Value{} })
	reg(symPkg+".Cover", func(m *M, a []Value) Value {
		if m.loc != nil {
			m.abort("cover")
		}
		l := mustStr(a[0])
		m.R.Covers[l]++
		if m.R.CoverIn[l] == nil && m.repIdx >= len(m.replay) {
			m.R.CoverIn[l] = m.inputVals(m.model)
		}
		return Value{}
	})
	reg(symPkg+".Observe", func(m *M, a []Value) Value {
		if m.loc != nil {
			m.abort("observe")
		}
		m.obs = append(m.obs, Obs{Label: mustStr(a[0]), V: a[1]})
		return Value{}
	})
	reg(symPkg+".Param", func(m *M, a []Value) Value {
		if v, ok := m.cfg.Params[mustStr(a[0])]; ok {
			return intV(int64(v))
		}
		return a[1]
	})
	reg(symPkg+".Symbolic", func(m *M, a []Value) Value { return boolV(true) })
	reg(symPkg+".Fork", func(m *M, a []Value) Value { return boolV(m.decideV(a[0])) })
	reg(symPkg+".Ite8", func(m *M, a []Value) Value { return m.ite(a, num{w: 8}) })
	reg(symPkg+".IteInt", func(m *M, a []Value) Value { return m.ite(a, num{w: 64, signed: true}) })
	reg(symPkg+".And", func(m *M, a []Value) Value {
		r := m.c.True
		for _, v := range sliceOf(a[0]) {
			r = m.c.And(r, m.term(v, num{w: 1}))
		}
		return termV(r)
	})
	reg(symPkg+".Or", func(m *M, a []Value) Value {
		r := m.c.False
		for _, v := range sliceOf(a[0]) {
			r = m.c.Or(r, m.term(v, num{w: 1}))
		}
		return termV(r)
	})
	reg(symPkg+".JSON", func(m *M, a []Value) Value {
		if m.loc != nil {
			m.abort("json")
		}
		m.docs = append(m.docs, &jnode{v: a[0]})
		return bytesVal([]byte(fmt.Sprintf("\x01JSON%d\x02", len(m.docs)-1)))
	})
	reg(symPkg+".AdvanceSec", func(m *M, a []Value) Value {
		if m.loc != nil {
			m.abort("clock")
		}
		i64 := num{w: 64, signed: true}
		m.clock = termV(m.c.Add(m.term(m.clock, i64), m.term(a[0], i64)))
		return m.tailfn(m.funcFor(m.p.Func(modelPkg, "RunTimers")), nil)
	})
	now := func(m *M, a []Value) Value {
		i64 := num{w: 64, signed: true}
		ext := termV(m.c.Add(m.term(m.clock, i64), m.c.BV(63082281600, 64)))
		return tuple(Value{}, ext, Value{})
	}
	reg(modelPkg+".Clock", now)
	reg("time.Since", func(m *M, a []Value) Value {
		return m.tailfn(m.funcFor(m.p.Func(modelPkg, "Since")), a)
	})
	reg("time.Until", func(m *M, a []Value) Value {
		return m.tailfn(m.funcFor(m.p.Func(modelPkg, "Until")), a)
	})

	// ---- bytealg ----
	idxByteStr := func(m *M, a []Value) Value {
		n := strLen(a[0])
		for i := 0; i < n; i++ {
			if m.decideV(m.byteEq(strByte(a[0], i), a[1])) {
				return intV(int64(i))
			}
		}
		return intV(-1)
	}
	idxByte := func(m *M, a []Value) Value {
		for i, b := range sliceOf(a[0]) {
			if m.decideV(m.byteEq(b, a[1])) {
				return intV(int64(i))
			}
		}
		return intV(-1)
	}
	lastByteStr := func(m *M, a []Value) Value {
		for i := strLen(a[0]) - 1; i >= 0; i-- {
			if m.decideV(m.byteEq(strByte(a[0], i), a[1])) {
				return intV(int64(i))
			}
		}
		return intV(-1)
	}
	reg("internal/bytealg.IndexByteString internal/stringslite.IndexByte strings.IndexByte", idxByteStr)
	reg("internal/bytealg.IndexByte bytes.IndexByte", idxByte)
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", lastByteStr)
	reg("internal/bytealg.CountString", func(m *M, a []Value) Value {
		k := 0
		for i := 0; i < strLen(a[0]); i++ {
			if m.decideV(m.byteEq(strByte(a[0], i), a[1])) {
				k++
			}
		}
		return intV(int64(k))
	})
	reg("internal/bytealg.Count", func(m *M, a []Value) Value {
		k := 0
		for _, b := range sliceOf(a[0]) {
			if m.decideV(m.byteEq(b, a[1])) {
				k++
			}
		}
		return intV(int64(k))
	})
	reg("strings.Index internal/stringslite.Index internal/bytealg.IndexString", func(m *M, a []Value) Value {
		return intV(int64(m.indexBytes(bytesOfStr(a[0]), bytesOfStr(a[1]))))
	})
	reg("bytes.Index internal/bytealg.Index", func(m *M, a []Value) Value {
		return intV(int64(m.indexBytes(sliceOf(a[0]), sliceOf(a[1]))))
	})
	reg("internal/bytealg.Equal bytes.Equal", func(m *M, a []Value) Value { return m.bytesEq(sliceOf(a[0]), sliceOf(a[1])) })
	reg("internal/bytealg.Compare bytes.Compare", func(m *M, a []Value) Value { return m.bytesCompare(sliceOf(a[0]), sliceOf(a[1])) })
	reg("internal/bytealg.CompareString strings.Compare", func(m *M, a []Value) Value {
		return m.bytesCompare(bytesOfStr(a[0]), bytesOfStr(a[1]))
	})
	reg("internal/bytealg.MakeNoZero", func(m *M, a []Value) Value {
		arr := make([]Value, m.conc(a[0]))
		m.noteFresh(arr)
		return mkSlice(arr)
	})
	reg("strings.HasPrefix internal/stringslite.HasPrefix", func(m *M, a []Value) Value {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return Value{}
		}
		return m.eqStr(substr(a[0], 0, n), a[1])
	})
	reg("strings.HasSuffix internal/stringslite.HasSuffix", func(m *M, a []Value) Value {
		n, l := strLen(a[1]), strLen(a[0])
		if l < n {
			return Value{}
		}
		return m.eqStr(substr(a[0], l-n, l), a[1])
	})
	reg("strings.ToLower", func(m *M, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return str(strings.ToLower(s))
		}
		if allASCII(m, a[0]) {
			return m.mapBytes(a[0], m.lower, lowerB)
		}
		return m.orig()
	})
	reg("strings.ToUpper", func(m *M, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			return str(strings.ToUpper(s))
		}
		if allASCII(m, a[0]) {
			return m.mapBytes(a[0], m.upper, upperB)
		}
		return m.orig()
	})
	reg("strings.EqualFold", func(m *M, a []Value) Value {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return boolV(strings.EqualFold(x, y))
		}
		if allASCII(m, a[0]) && allASCII(m, a[1]) {
			return m.eqStr(m.mapBytes(a[0], m.lower, lowerB), m.mapBytes(a[1], m.lower, lowerB))
		}
		return m.orig()
	})
	reg("unicode/utf8.ValidString", func(m *M, a []Value) Value {
		if allASCII(m, a[0]) {
			return boolV(true)
		}
		return m.orig()
	})
	reg("unicode/utf8.RuneCountInString", func(m *M, a []Value) Value {
		if allASCII(m, a[0]) {
			return intV(int64(strLen(a[0])))
		}
		return m.orig()
	})

	// ---- runtime and friends ----
	reg("runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime.Gosched runtime.LockOSThread runtime.UnlockOSThread internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange internal/race.Errors internal/msan.Read internal/msan.Write internal/asan.Read internal/asan.Write", nop)
	reg("runtime.Callers", func(m *M, a []Value) Value { return Value{} })
	reg("runtime.Caller", func(m *M, a []Value) Value {
		i := len(m.frames) - 1
		if t := a[0]; t.P == nil {
			i -= int(t.N)
		}
		if i >= 0 {
			f := m.frames[i]
			if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
				if ps := m.p.SSA.Fset.Position(f.fn.blocks[f.blk].ins[f.pc].in.Pos()); ps.IsValid() {
					return tuple(Value{}, str(ps.Filename), intV(int64(ps.Line)), boolV(true))
				}
			}
		}
		return tuple(Value{}, str("/repo/file.go"), intV(1), boolV(true))
	})
	reg("internal/abi.NoEscape internal/abi.Escape strings.noescape", ret0)
	reg("internal/stringslite.Clone strings.Clone", ret0)
	reg("internal/godebug.New", func(m *M, a []Value) Value {
		t := m.p.NamedType("internal/godebug", "Setting")
		return ptrV(m.alloc(t))
	})
	reg("(*internal/godebug.Setting).Value (*internal/godebug.Setting).Name", func(m *M, a []Value) Value { return Value{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("os.runtime_args syscall.runtime_envs", func(m *M, a []Value) Value { return Value{} })
	reg("os.runtime_beforeExit runtime_beforeExit", nop)
	reg("os.Exit", func(m *M, a []Value) Value {
		m.violationIf("os.Exit called")
		panic(pathEnd{outcome{kind: oPanicked, msg: "os.Exit"}})
	})

	// The text of a symbolic duration only appears in verbose messages, whose
	// contents no property constrains: it is abstracted to a fixed text.
	reg("(time.Duration).String", func(m *M, a []Value) Value {
		if a[0].P != nil {
			return str("(duration)")
		}
		return m.orig()
	})

	// ---- sync ----
	reg("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait (*sync.Cond).Signal (*sync.Cond).Broadcast (*internal/sync.Mutex).Lock (*internal/sync.Mutex).Unlock", nop)
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(m *M, a []Value) Value { m.lock(m.deref(a[0]), false, false); return Value{} })
	reg("(*sync.RWMutex).RLock", func(m *M, a []Value) Value { m.lock(m.deref(a[0]), true, false); return Value{} })
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(m *M, a []Value) Value { m.unlock(m.deref(a[0])); return Value{} })
	reg("(*sync.RWMutex).RUnlock", func(m *M, a []Value) Value { m.runlock(m.deref(a[0])); return Value{} })
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *M, a []Value) Value { return boolV(m.lock(m.deref(a[0]), false, true)) })
	reg("(*sync.RWMutex).TryRLock", func(m *M, a []Value) Value { return boolV(m.lock(m.deref(a[0]), true, true)) })
	reg("(*sync.Once).Do", func(m *M, a []Value) Value {
		p := m.deref(a[0])
		// the last leaf of the struct is used as the flag
		fl := onceFlag(p)
		if m.rc != nil {
			// the once is held as a lock while its function runs
			m.lock(p, false, false)
			if fl.N != 0 {
				m.unlock(p)
				return Value{}
			}
			return m.tailfn(m.funcFor(m.p.Func(symPkg, "raceOnce")), a)
		}
		if fl.N != 0 {
			return Value{}
		}
		m.noteCell(fl)
		m.set(fl, Value{N: 1})
		c, _ := m.closure(a[1])
		return m.tailcall(c, nil)
	})
	// the pools of the code under test hand out what was put back last
	reg("(*sync.Pool).Get", func(m *M, a []Value) Value {
		p := m.deref(a[0])
		if c, ok := agg(*p)[0].P.(*Slice); ok && len(c.A) > 0 {
			m.acqObj(p, "pool")
			m.set1(&agg(*p)[0], Value{P: &Slice{A: c.A[: len(c.A)-1 : len(c.A)-1]}})
			return c.A[len(c.A)-1]
		}
		st := m.canon(m.p.NamedType("sync", "Pool")).U.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				nf := agg(*p)[i]
				if nf.P == nil {
					return Value{}
				}
				c, _ := m.closure(nf)
				return m.tailcall(c, nil)
			}
		}
		return Value{}
	})
	reg("(*sync.Pool).Put", func(m *M, a []Value) Value {
		if !m.cur().fn.repo || a[1].P == nil {
			return Value{}
		}
		p := m.deref(a[0])
		var l []Value
		if c, ok := agg(*p)[0].P.(*Slice); ok {
			l = append(l, c.A...)
		}
		m.relObj(p, "pool")
		m.noteCell(&agg(*p)[0])
		m.set1(&agg(*p)[0], Value{P: &Slice{A: append(l, a[1])}})
		return Value{}
	})
	syncMap := func(m *M, p *Value) *Map {
		c := agg(*p)
		if mm, ok := c[0].P.(*Map); ok {
			return mm
		}
		mm := m.newMap()
		m.set1(&c[0], Value{P: mm})
		return mm
	}
	anyT := func(m *M) *Type { return m.canon(types.NewInterfaceType(nil, nil)) }
	quiet := func(m *M, f func()) {
		if m.rc == nil {
			f()
			return
		}
		m.rc.quiet = true
		defer func() { m.rc.quiet = false }()
		f()
	}
	smFind := func(m *M, mm *Map, k Value) (int, string) {
		i, ks, _ := m.mapFind(mm, k, anyT(m))
		return i, ks
	}
	// a write synchronises with the reads that observe it
	smSet := func(m *M, mm *Map, k, v Value, ks string) {
		m.relObj(mm, ks)
		quiet(m, func() { m.mapSet(mm, k, v, anyT(m)) })
	}
	reg("(*sync.Map).Load", func(m *M, a []Value) Value {
		mm := syncMap(m, m.deref(a[0]))
		if i, ks := smFind(m, mm, a[1]); i >= 0 {
			m.acqObj(mm, ks)
			return tuple(mm.ents[i].v, boolV(true))
		}
		return tuple(Value{}, boolV(false))
	})
	reg("(*sync.Map).Store", func(m *M, a []Value) Value {
		mm := syncMap(m, m.deref(a[0]))
		_, ks := smFind(m, mm, a[1])
		smSet(m, mm, a[1], a[2], ks)
		return Value{}
	})
	reg("(*sync.Map).Swap", func(m *M, a []Value) Value {
		mm := syncMap(m, m.deref(a[0]))
		i, ks := smFind(m, mm, a[1])
		r := tuple(Value{}, boolV(false))
		if i >= 0 {
			m.acqObj(mm, ks)
			r = tuple(mm.ents[i].v, boolV(true))
		}
		smSet(m, mm, a[1], a[2], ks)
		return r
	})
	reg("(*sync.Map).LoadOrStore", func(m *M, a []Value) Value {
		mm := syncMap(m, m.deref(a[0]))
		i, ks := smFind(m, mm, a[1])
		if i >= 0 {
			m.acqObj(mm, ks)
			return tuple(mm.ents[i].v, boolV(true))
		}
		smSet(m, mm, a[1], a[2], ks)
		return tuple(a[2], boolV(false))
	})
	smDel := func(m *M, a []Value) Value {
		mm := syncMap(m, m.deref(a[0]))
		r := tuple(Value{}, boolV(false))
		if i, ks := smFind(m, mm, a[1]); i >= 0 {
			m.acqObj(mm, ks)
			m.relObj(mm, ks)
			r = tuple(mm.ents[i].v, boolV(true))
			quiet(m, func() { m.mapDelete(mm, a[1], anyT(m)) })
		}
		return r
	}
	reg("(*sync.Map).LoadAndDelete", smDel)
	reg("(*sync.Map).Delete", func(m *M, a []Value) Value { smDel(m, a); return Value{} })
	// ---- atomics ----
	regAtomics()
	// ---- math ----
	reg("math.Float64bits", func(m *M, a []Value) Value {
		if a[0].P != nil {
			panic(unsupported{"math.Float64bits of symbolic value"})
		}
		return a[0]
	})
	reg("math.Float64frombits", func(m *M, a []Value) Value {
		if a[0].P != nil {
			return termV(m.c.FOp(smt.OpFFromBits, smt.FP, a[0].term()))
		}
		return a[0]
	})
	reg("math.Float32bits math.Float32frombits", func(m *M, a []Value) Value {
		if a[0].P != nil {
			panic(unsupported{"symbolic float32"})
		}
		return a[0]
	})
	reg("math.IsNaN", func(m *M, a []Value) Value {
		if a[0].P != nil {
			return termV(m.c.FOp(smt.OpFIsNaN, smt.Bool, a[0].term()))
		}
		return boolV(math.IsNaN(math.Float64frombits(a[0].N)))
	})
	reg("math.IsInf", func(m *M, a []Value) Value {
		sg := int64(m.conc(a[1]))
		if a[0].P != nil {
			t := a[0].term()
			p := m.c.FOp(smt.OpFEq, smt.Bool, t, m.c.F(math.Inf(1)))
			n := m.c.FOp(smt.OpFEq, smt.Bool, t, m.c.F(math.Inf(-1)))
			switch {
			case sg > 0:
				return termV(p)
			case sg < 0:
				return termV(n)
			}
			return termV(m.c.Or(p, n))
		}
		return boolV(math.IsInf(math.Float64frombits(a[0].N), int(sg)))
	})
	reg("math.Trunc math.trunc math.archTrunc", func(m *M, a []Value) Value {
		if a[0].P != nil {
			return termV(m.c.FOp(smt.OpFTrunc, smt.FP, a[0].term()))
		}
		return fltV(math.Trunc(math.Float64frombits(a[0].N)))
	})
	f1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(m *M, a []Value) Value {
			if a[0].P != nil {
				return m.orig()
			}
			return fltV(f(math.Float64frombits(a[0].N)))
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Sqrt", math.Sqrt)
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Pow10", func(f float64) float64 { return f })
	delete(intrinsics, "math.Pow10")
	reg("math.Abs", func(m *M, a []Value) Value {
		if t := a[0].term(); t != nil {
			neg := m.c.FOp(smt.OpFLt, smt.Bool, t, m.c.F(0))
			return termV(m.c.Ite(neg, m.c.FOp(smt.OpFNeg, smt.FP, t), t))
		}
		return fltV(math.Abs(math.Float64frombits(a[0].N)))
	})
	reg("math/bits.Len64 math/bits.Len", func(m *M, a []Value) Value {
		return intV(int64(bits.Len64(m.conc(a[0]))))
	})
	reg("math/bits.TrailingZeros64", func(m *M, a []Value) Value { return intV(int64(bits.TrailingZeros64(m.conc(a[0])))) })
	reg("math/bits.LeadingZeros64", func(m *M, a []Value) Value { return intV(int64(bits.LeadingZeros64(m.conc(a[0])))) })
	reg("strconv.FormatFloat", func(m *M, a []Value) Value {
		if a[0].P != nil {
			return m.fmtFloatSym(a[0].term(), byte(m.conc(a[1])), int(int64(m.conc(a[2]))))
		}
		return str(strconv.FormatFloat(math.Float64frombits(a[0].N), byte(m.conc(a[1])), int(int64(m.conc(a[2]))), int(m.conc(a[3]))))
	})
	reg("strconv.ParseFloat", func(m *M, a []Value) Value {
		s, ok := concStr(a[0])
		if !ok {
			return m.orig()
		}
		f, err := strconv.ParseFloat(s, int(m.conc(a[1])))
		if err != nil {
			return m.orig()
		}
		return tuple(fltV(f), Value{})
	})
	// ---- crypto (concrete only) ----
	reg("crypto/sha256.Sum256", func(m *M, a []Value) Value {
		return m.hash(32, sliceOf(a[0]), func(b []byte) []byte { h := sha256.Sum256(b); return h[:] })
	})
	reg("crypto/sha1.Sum", func(m *M, a []Value) Value {
		return m.hash(20, sliceOf(a[0]), func(b []byte) []byte { h := sha1.Sum(b); return h[:] })
	})
	reg("crypto/md5.Sum", func(m *M, a []Value) Value {
		return m.hash(16, sliceOf(a[0]), func(b []byte) []byte { h := md5.Sum(b); return h[:] })
	})
	// ---- errors ----
	reg("internal/reflectlite.TypeOf", func(m *M, a []Value) Value { return m.typeOf(a[0]) })
	// ---- unique ----
	reg("unique.Make", func(m *M, a []Value) Value {
		return m.uniqueMake(a[0])
	})
}

type hashed struct{ in, out []Value }

// hash models a cryptographic hash: concrete data is hashed; symbolic data gets
// fresh output bytes, equal for equal inputs and, as a stated assumption,
// different in the first three bytes for different inputs.
func (m *M) hash(n int, in []Value, f func([]byte) []byte) Value {
	if m.loc != nil {
		m.abort("hash")
	}
	key := fmt.Sprint("hash", n)
	tab := m.hashes
	var out []Value
	if b, ok := concBytes(in); ok {
		out = bytesVal(f(b)).P.(*Slice).A
	} else {
		for i := 0; i < n; i++ {
			out = append(out, termV(m.c.Var(fmt.Sprintf("%s_%d_%d", key, len(tab), i), 8)))
		}
		for _, h := range tab {
			if len(h.out) != n {
				continue
			}
			e := m.bytesEq(in, h.in)
			et := m.term(e, num{w: 1})
			all := m.term(m.bytesEq(out, h.out), num{w: 1})
			pre := m.term(m.bytesEq(out[:3], h.out[:3]), num{w: 1})
			m.assume(m.c.Ite(et, all, m.c.Not(pre)))
		}
	}
	m.hashes = append(tab[:len(tab):len(tab)], hashed{append([]Value(nil), in...), out})
	return Value{P: &Agg{append([]Value(nil), out...)}}
}

func (m *M) ite(a []Value, n num) Value {
	t, b, conc := m.condTerm(a[0])
	if conc {
		if b {
			return a[1]
		}
		return a[2]
	}
	return termV(m.c.Ite(t, m.term(a[1], n), m.term(a[2], n)))
}

func (m *M) violationIf(msg string) {
	if m.loc != nil {
		m.abort(msg)
	}
	m.violation("panic", msg, m.model)
}

func onceFlag(p *Value) *Value {
	for {
		a, ok := p.P.(*Agg)
		if !ok {
			return p
		}
		if len(a.E) == 0 {
			return p
		}
		// find a scalar leaf
		q := &a.E[0]
		for i := range a.E {
			q = &a.E[i]
			if s, ok := q.P.(*Agg); !ok || len(s.E) > 0 {
				break
			}
		}
		p = q
	}
}

func regAtomics() {
	cell := func(m *M, v Value) *Value {
		p := m.deref(v)
		for {
			a, ok := p.P.(*Agg)
			if !ok {
				return p
			}
			// the value is the last field (noCopy/align fields come first)
			p = &a.E[len(a.E)-1]
		}
	}
	num1 := map[string]uint8{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64, "Uintptr": 64, "Bool": 1, "Pointer": 0, "Value": 0}
	for T, w := range num1 {
		pre := "(*sync/atomic." + T + ")."
		add := w
		at := func(get func(m *M, v Value) *Value, name func(string) string) {
			ld := func(m *M, v Value) *Value { c := get(m, v); m.acqObj(c, "a"); return c }
			st := func(m *M, c *Value, v Value) { m.relObj(c, "a"); m.set1(c, v) }
			reg(name("Load"), func(m *M, a []Value) Value { return *ld(m, a[0]) })
			reg(name("Store"), func(m *M, a []Value) Value { st(m, ld(m, a[0]), a[1]); return Value{} })
			reg(name("Swap"), func(m *M, a []Value) Value { c := ld(m, a[0]); o := *c; st(m, c, a[1]); return o })
			reg(name("CompareAndSwap"), func(m *M, a []Value) Value {
				c := ld(m, a[0])
				if *c == a[1] {
					st(m, c, a[2])
					return boolV(true)
				}
				return Value{}
			})
			reg(name("Add"), func(m *M, a []Value) Value {
				c := ld(m, a[0])
				v := Value{N: maskW(c.N+a[1].N, add)}
				st(m, c, v)
				return v
			})
		}
		at(cell, func(o string) string { return pre + o })
		at(func(m *M, v Value) *Value { return m.deref(v) }, func(o string) string { return "sync/atomic." + o + T })
	}
}

// uniqueMake models unique.Make: equal concrete values give the same handle.
func (m *M) uniqueMake(v Value) Value {
	k, ok := structKey(v)
	if !ok {
		// a fresh handle: exact unless two handles of symbolic values are compared
		return tuple(ptrV(m.newCell(copyVal(v))))
	}
	tab, _ := m.exts["unique"].(map[string]*Value)
	if tab == nil {
		tab = map[string]*Value{}
		m.exts["unique"] = tab
	}
	c := tab[k]
	if c == nil {
		c = new(Value)
		*c = copyVal(v)
		tab[k] = c
	}
	return tuple(ptrV(c))
}

func structKey(v Value) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return strconv.FormatUint(v.N, 16) + ";", true
	case *Str:
		if p.T != nil {
			return "", false
		}
		return strconv.Quote(p.S) + ";", true
	case *Agg:
		out := "{"
		for _, e := range p.E {
			k, ok := structKey(e)
			if !ok {
				return "", false
			}
			out += k
		}
		return out + "}", true
	}
	return "", false
}

// fmtFloatSym formats a symbolic float where its value is a small integer.
func (m *M) fmtFloatSym(t *smt.Term, f byte, prec int) Value {
	u := m.c.ExactU(t)
	if u == nil {
		panic(unsupported{"formatting a symbolic float"})
	}
	return str(strconv.FormatFloat(float64(m.concretize(u)), f, prec, 64))
}
