package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Prog is the loaded program, shared by all workers.
type Prog struct {
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package
	sizes types.Sizes

	mu     sync.Mutex
	canonM typeutil.Map
	byPtr  map[types.Type]*Type
	nTypes int
}

// Load loads the packages matching patterns in dir, with all dependencies.
func Load(dir string, env []string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedCompiledGoFiles,
		Dir:  dir,
		Env:  append(os.Environ(), env...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var first error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if first == nil {
				first = fmt.Errorf("%s: %v", p.PkgPath, e)
			}
		}
	})
	if first != nil {
		return nil, first
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{SSA: prog, Pkgs: map[string]*ssa.Package{}, byPtr: map[types.Type]*Type{}, sizes: types.SizesFor("gc", "amd64")}
	for _, sp := range prog.AllPackages() {
		if sp != nil && sp.Pkg != nil {
			p.Pkgs[sp.Pkg.Path()] = sp
		}
	}
	return p, nil
}

// Canon returns the canonical representation of t.
func (p *Prog) Canon(t types.Type) *Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.canonLocked(t)
}

func (p *Prog) canonLocked(t types.Type) *Type {
	if c := p.byPtr[t]; c != nil {
		return c
	}
	t2 := types.Unalias(t)
	if c, ok := p.canonM.At(t2).(*Type); ok {
		p.byPtr[t] = c
		return c
	}
	p.nTypes++
	c := &Type{ID: p.nTypes, T: t2, U: t2.Underlying()}
	p.canonM.Set(t2, c)
	p.byPtr[t] = c
	p.byPtr[t2] = c
	return c
}

// Lookup finds a package-level function or a method ("pkg.(*T).M" style is not parsed; use LookupMethod).
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) NamedType(pkg, name string) types.Type {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

type num struct {
	w      uint8 // bits; 0 = not numeric; 1 = bool
	signed bool
	float  bool
	isStr  bool
}

func numOf(t types.Type) num {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return num{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return num{w: 1}
	case types.Int8:
		return num{w: 8, signed: true}
	case types.Int16:
		return num{w: 16, signed: true}
	case types.Int32, types.UntypedRune:
		return num{w: 32, signed: true}
	case types.Int, types.Int64, types.UntypedInt:
		return num{w: 64, signed: true}
	case types.Uint8:
		return num{w: 8}
	case types.Uint16:
		return num{w: 16}
	case types.Uint32:
		return num{w: 32}
	case types.Uint, types.Uint64, types.Uintptr:
		return num{w: 64}
	case types.Float32:
		return num{w: 32, float: true}
	case types.Float64, types.UntypedFloat:
		return num{w: 64, float: true}
	case types.String, types.UntypedString:
		return num{isStr: true}
	}
	return num{}
}

func maskW(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oBin
	oNot
	oNeg
	oCompl
	oLoad
	oStore
	oCall    // static function
	oCallClo // closure value
	oInvoke  // interface method
	oBuiltin
	oGo
	oDefer
	oRunDefers
	oPanic
	oReturn
	oIf
	oJump
	oPhi
	oChangeIface
	oConv // numeric / string conversion
	oCopy // change type: plain copy
	oMakeIface
	oMakeClosure
	oMakeMap
	oMakeSlice
	oMakeChan
	oField
	oFieldAddr
	oIndex
	oIndexAddr
	oLookup
	oMapUpdate
	oRange
	oNext
	oSlice
	oSlice2Arr
	oTypeAssert
	oExtract
	oSend
	oRecv
	oSelect
	oUnsup
)

// Instr is one compiled instruction.
type Instr struct {
	op      opcode
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	tok     token.Token
	n       num // operand numeric info
	n2      num
	idx     int
	typ     *Type
	typ2    *Type
	commaOk bool
	fn      *Func
	name    string
	meth    *types.Func
	in      ssa.Instruction
	site    *site
}

// site holds per-branch merge statistics (per worker).
type site struct {
	ok, fail int
	forced   int
}

type Block struct {
	ins   []Instr
	nphi  int
	succs []int
	preds []int
	ipdom int // -1 = function exit
}

// Func is a compiled function (per worker).
type Func struct {
	Name   string
	S      *ssa.Function
	Pkg    string
	nreg   int
	npar   int
	nfree  int
	blocks []*Block
	consts []Value
	recov  int
	done   bool
	intr   intrinsic
	redir  *Func
	live   [][]uint64 // live-in bitsets per block
	rtypes []types.Type
	idx    map[ssa.Value]int32
	res    []num
	hasDef bool
	steps  int64 // instructions executed (reporting)
	repo   bool  // code under test
	sync   bool  // synchronisation operation
}

func (m *M) funcFor(s *ssa.Function) *Func {
	if f := m.funcs[s]; f != nil {
		return f
	}
	f := &Func{S: s, Name: s.String()}
	if s.Pkg != nil {
		f.Pkg = s.Pkg.Pkg.Path()
	} else if o := s.Origin(); o != nil && o.Pkg != nil {
		f.Pkg = o.Pkg.Pkg.Path()
	} else if s.Object() != nil && s.Object().Pkg() != nil {
		f.Pkg = s.Object().Pkg().Path()
	}
	f.repo = isRepoPkg(f.Pkg)
	f.sync = syncOps[f.Name]
	m.funcs[s] = f
	name := f.Name
	if o := s.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		f.intr = in
	} else if r, ok := redirects[name]; ok {
		t := m.p.Func(r.pkg, r.name)
		if t == nil {
			f.intr = func(m *M, a []Value) Value { panic(unsupported{"missing model " + r.pkg + "." + r.name}) }
		} else {
			f.redir = m.funcFor(t)
		}
	} else if pi, ok := pkgIntrinsics[f.Pkg]; ok {
		if in := pi(m, s, name); in != nil {
			f.intr = in
		}
	}
	f.npar = len(s.Params)
	return f
}

func (m *M) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	n := numOf(t)
	switch {
	case n.isStr:
		return str(constant.StringVal(c.Value))
	case n.w == 1 && c.Value.Kind() == constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case n.float:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if n.w == 32 {
			return Value{N: uint64(math.Float32bits(float32(f)))}
		}
		return fltV(f)
	case n.w > 0:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Value{N: maskW(u, n.w)}
		}
		i, _ := constant.Int64Val(v)
		return Value{N: maskW(uint64(i), n.w)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	return poison("constant of type " + t.String())
}

// zero returns a fresh zero value of type t.
func (m *M) zero(t types.Type) Value {
	ct := m.canon(t)
	switch u := ct.U.(type) {
	case *types.Struct:
		if m.isReflectValue(ct) {
			return Value{}
		}
		e := make([]Value, u.NumFields())
		for i := range e {
			e[i] = m.zero(u.Field(i).Type())
		}
		return Value{P: &Agg{e}}
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			return poison("huge array")
		}
		e := make([]Value, n)
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range e {
				e[i] = m.zero(u.Elem())
			}
		}
		return Value{P: &Agg{e}}
	case *types.Tuple:
		e := make([]Value, u.Len())
		for i := range e {
			e[i] = m.zero(u.At(i).Type())
		}
		return Value{P: &Agg{e}}
	}
	return Value{}
}

func (m *M) canon(t types.Type) *Type {
	if c := m.types[t]; c != nil {
		return c
	}
	c := m.p.Canon(t)
	m.types[t] = c
	return c
}

// compile translates the SSA of f.
func (m *M) compile(f *Func) {
	s := f.S
	if s.Pkg != nil {
		s.Pkg.Build()
	} else if o := s.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	f.done = true
	if s.Blocks == nil {
		return
	}
	f.idx = map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range s.Params {
		f.idx[p] = n
		n++
	}
	for _, p := range s.FreeVars {
		f.idx[p] = n
		n++
	}
	f.nfree = len(s.FreeVars)
	for _, b := range s.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				f.idx[v] = n
				n++
			}
		}
	}
	f.nreg = int(n)
	f.recov = -1
	if s.Recover != nil {
		f.recov = s.Recover.Index
	}
	res := s.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		f.res = append(f.res, numOf(res.At(i).Type()))
	}
	cidx := map[ssa.Value]int32{}
	var globals []*ssa.Global
	opnd := func(v ssa.Value) int32 {
		if v == nil {
			return -1 << 30
		}
		if i, ok := f.idx[v]; ok {
			return i
		}
		if i, ok := cidx[v]; ok {
			return i
		}
		var cv Value
		switch v := v.(type) {
		case *ssa.Const:
			cv = m.constVal(v)
		case *ssa.Global:
			globals = append(globals, v)
			cv = ptrV(m.global(v))
		case *ssa.Function:
			cv = Value{P: &Closure{Fn: m.funcFor(v)}}
		case *ssa.Builtin:
			cv = poison("builtin value " + v.Name())
		default:
			cv = poison(fmt.Sprintf("operand %T", v))
		}
		f.consts = append(f.consts, cv)
		i := ^int32(len(f.consts) - 1)
		cidx[v] = i
		return i
	}
	for _, b := range s.Blocks {
		cb := &Block{}
		for _, x := range b.Succs {
			cb.succs = append(cb.succs, x.Index)
		}
		for _, x := range b.Preds {
			cb.preds = append(cb.preds, x.Index)
		}
		for _, in := range b.Instrs {
			ci := Instr{dst: -1, in: in}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = f.idx[v]
			}
			m.compileInstr(f, &ci, in, opnd)
			if ci.op == oPhi {
				cb.nphi++
			}
			if ci.op == oNop {
				continue
			}
			cb.ins = append(cb.ins, ci)
		}
		f.blocks = append(f.blocks, cb)
	}
	f.ipdoms()
	for _, g := range globals {
		m.ensureInit(g.Pkg)
	}
}

func (m *M) compileInstr(f *Func, ci *Instr, in ssa.Instruction, op func(ssa.Value) int32) {
	switch in := in.(type) {
	case *ssa.DebugRef:
		ci.op = oNop
	case *ssa.Alloc:
		ci.op = oAlloc
		ci.typ = m.canon(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		ci.op = oBin
		ci.tok = in.Op
		ci.a, ci.b = op(in.X), op(in.Y)
		ci.n = numOf(in.X.Type())
		ci.n2 = numOf(in.Y.Type())
		ci.typ = m.canon(in.X.Type())
		ci.typ2 = m.canon(in.Y.Type())
	case *ssa.UnOp:
		ci.a = op(in.X)
		ci.n = numOf(in.X.Type())
		switch in.Op {
		case token.NOT:
			ci.op = oNot
		case token.SUB:
			ci.op = oNeg
		case token.XOR:
			ci.op = oCompl
		case token.MUL:
			ci.op = oLoad
			ci.typ = m.canon(in.Type())
		case token.ARROW:
			ci.op = oRecv
			ci.commaOk = in.CommaOk
			ci.typ = m.canon(in.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.Store:
		ci.op = oStore
		ci.a, ci.b = op(in.Addr), op(in.Val)
	case *ssa.Call:
		m.compileCall(ci, &in.Call, op)
	case *ssa.Go:
		m.compileCall(ci, &in.Call, op)
		ci.c = int32(ci.op)
		ci.op = oGo
	case *ssa.Defer:
		m.compileCall(ci, &in.Call, op)
		ci.d = int32(ci.op)
		ci.op = oDefer
		f.hasDef = true
		if in.DeferStack != nil {
			ci.op = oUnsup
			ci.name = "defer stack"
		}
	case *ssa.RunDefers:
		ci.op = oRunDefers
	case *ssa.Panic:
		ci.op = oPanic
		ci.a = op(in.X)
	case *ssa.Return:
		ci.op = oReturn
		for _, r := range in.Results {
			ci.args = append(ci.args, op(r))
		}
	case *ssa.If:
		ci.op = oIf
		ci.a = op(in.Cond)
		ci.site = &site{}
	case *ssa.Jump:
		ci.op = oJump
	case *ssa.Phi:
		ci.op = oPhi
		ci.n = numOf(in.Type())
		for _, e := range in.Edges {
			ci.args = append(ci.args, op(e))
		}
	case *ssa.ChangeType:
		ci.op = oCopy
		ci.a = op(in.X)
	case *ssa.ChangeInterface:
		ci.op = oCopy
		ci.a = op(in.X)
	case *ssa.Convert:
		ci.op = oConv
		ci.a = op(in.X)
		ci.n, ci.n2 = numOf(in.X.Type()), numOf(in.Type())
		ci.typ, ci.typ2 = m.canon(in.X.Type()), m.canon(in.Type())
	case *ssa.MultiConvert:
		ci.op = oUnsup
		ci.name = "multiconvert"
	case *ssa.SliceToArrayPointer:
		ci.op = oSlice2Arr
		ci.a = op(in.X)
		ci.idx = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.MakeInterface:
		ci.op = oMakeIface
		ci.a = op(in.X)
		ci.typ = m.canon(in.X.Type())
	case *ssa.MakeClosure:
		ci.op = oMakeClosure
		ci.fn = m.funcFor(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			ci.args = append(ci.args, op(b))
		}
	case *ssa.MakeMap:
		ci.op = oMakeMap
		ci.typ = m.canon(in.Type())
	case *ssa.MakeSlice:
		ci.op = oMakeSlice
		ci.a, ci.b = op(in.Len), op(in.Cap)
		ci.typ = m.canon(in.Type().Underlying().(*types.Slice).Elem())
	case *ssa.MakeChan:
		ci.op = oMakeChan
		ci.a = op(in.Size)
	case *ssa.Field:
		ci.op = oField
		ci.a = op(in.X)
		ci.idx = in.Field
	case *ssa.FieldAddr:
		ci.op = oFieldAddr
		ci.a = op(in.X)
		ci.idx = in.Field
	case *ssa.Index:
		ci.op = oIndex
		ci.a, ci.b = op(in.X), op(in.Index)
		ci.n = numOf(in.X.Type())
		ci.n2 = numOf(in.Index.Type())
	case *ssa.IndexAddr:
		ci.op = oIndexAddr
		ci.a, ci.b = op(in.X), op(in.Index)
		ci.n2 = numOf(in.Index.Type())
		var et types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
			ci.commaOk = true // array pointer
		}
		ci.typ = m.canon(et)
		ci.n = numOf(et)
		// A symbolic index whose address is only loaded from can be a lazy read.
		ci.c = 0
		if rs := in.Referrers(); rs != nil {
			ok := true
			for _, r := range *rs {
				if u, isU := r.(*ssa.UnOp); !isU || u.Op != token.MUL {
					ok = false
				}
			}
			if ok {
				ci.c = 1
			}
		}
	case *ssa.Lookup:
		ci.op = oLookup
		ci.a, ci.b = op(in.X), op(in.Index)
		ci.commaOk = in.CommaOk
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			ci.typ = m.canon(mt.Elem())
			ci.typ2 = m.canon(mt.Key())
		} else {
			ci.op = oIndex
			ci.n = numOf(in.X.Type())
			ci.n2 = numOf(in.Index.Type())
		}
	case *ssa.MapUpdate:
		ci.op = oMapUpdate
		ci.a, ci.b, ci.c = op(in.Map), op(in.Key), op(in.Value)
		ci.typ2 = m.canon(in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		ci.op = oRange
		ci.a = op(in.X)
		ci.n = numOf(in.X.Type())
	case *ssa.Next:
		ci.op = oNext
		ci.a = op(in.Iter)
		ci.commaOk = in.IsString
		if r, ok := in.Iter.(*ssa.Range); ok {
			if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
				ci.typ = m.canon(mt.Key())
				ci.typ2 = m.canon(mt.Elem())
			}
		}
	case *ssa.Slice:
		ci.op = oSlice
		ci.a = op(in.X)
		ci.b, ci.c, ci.d = op(in.Low), op(in.High), op(in.Max)
		ci.n = numOf(in.X.Type())
		_, ci.commaOk = in.X.Type().Underlying().(*types.Pointer)
	case *ssa.TypeAssert:
		ci.op = oTypeAssert
		ci.a = op(in.X)
		ci.typ = m.canon(in.AssertedType)
		ci.commaOk = in.CommaOk
	case *ssa.Extract:
		ci.op = oExtract
		ci.a = op(in.Tuple)
		ci.idx = in.Index
	case *ssa.Send:
		ci.op = oSend
		ci.a, ci.b = op(in.Chan), op(in.X)
	case *ssa.Select:
		ci.op = oSelect
		ci.commaOk = in.Blocking
		for _, st := range in.States {
			ci.args = append(ci.args, op(st.Chan), op(st.Send))
		}
	default:
		ci.op = oUnsup
		ci.name = fmt.Sprintf("%T", in)
	}
}

func (m *M) compileCall(ci *Instr, c *ssa.CallCommon, op func(ssa.Value) int32) {
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
	}
	if c.IsInvoke() {
		ci.op = oInvoke
		ci.a = op(c.Value)
		ci.meth = c.Method
		ci.name = c.Method.Id()
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		ci.op = oCall
		ci.fn = m.funcFor(v)
	case *ssa.Builtin:
		ci.op = oBuiltin
		ci.name = v.Name()
		for _, a := range c.Args {
			if ci.typ == nil {
				ci.typ = m.canon(a.Type())
				ci.n = numOf(a.Type())
			} else if ci.typ2 == nil {
				ci.typ2 = m.canon(a.Type())
			}
		}
	default:
		ci.op = oCallClo
		ci.a = op(v)
	}
}

// ipdoms computes immediate postdominators, ignoring blocks that end in panic.
func (f *Func) ipdoms() {
	n := len(f.blocks)
	exit := n
	// sets as bitsets; n is small.
	words := (n + 1 + 63) / 64
	isPanic := make([]bool, n)
	for i, b := range f.blocks {
		if k := len(b.ins); k > 0 && b.ins[k-1].op == oPanic {
			isPanic[i] = true
		}
	}
	pd := make([][]uint64, n+1)
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if isPanic[i] {
				continue // stays "everything": does not constrain predecessors
			}
			nw := append([]uint64(nil), full...)
			succs := f.blocks[i].succs
			if len(succs) == 0 {
				succs = []int{exit}
			}
			for _, s := range succs {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(s []uint64, i int) bool { return s[i/64]>>(i%64)&1 == 1 }
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if has(s, i) {
				c++
			}
		}
		return c
	}
	cnt := make([]int, n+1)
	for i := 0; i <= n; i++ {
		cnt[i] = count(pd[i])
	}
	for i, b := range f.blocks {
		b.ipdom = -1
		// the immediate postdominator is the strict postdominator with the largest set
		best := -1
		for j := 0; j <= n; j++ {
			if j != i && has(pd[i], j) && (j == exit || !isPanic[j]) {
				if best < 0 || cnt[j] > cnt[best] {
					best = j
				}
			}
		}
		if best >= 0 && best != exit {
			b.ipdom = best
		}
	}
}

// liveness computes live-in register sets lazily.
func (f *Func) liveIn(b int) []uint64 {
	if f.live != nil {
		return f.live[b]
	}
	words := (f.nreg + 63) / 64
	use := make([][]uint64, len(f.blocks))
	def := make([][]uint64, len(f.blocks))
	in := make([][]uint64, len(f.blocks))
	phiUse := make([][]uint64, len(f.blocks)) // uses at the end of the block by successors' phis
	for i := range f.blocks {
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		in[i] = make([]uint64, words)
		phiUse[i] = make([]uint64, words)
	}
	set := func(s []uint64, r int32) { s[r/64] |= 1 << (r % 64) }
	get := func(s []uint64, r int32) bool { return s[r/64]>>(r%64)&1 == 1 }
	for i, b := range f.blocks {
		for k := range b.ins {
			ins := &b.ins[k]
			if ins.op == oPhi {
				for e, a := range ins.args {
					if a >= 0 {
						set(phiUse[b.preds[e]], a)
					}
				}
				set(def[i], ins.dst)
				continue
			}
			for _, r := range ins.ssaOperands(f) {
				if r >= 0 && !get(def[i], r) {
					set(use[i], r)
				}
			}
			if ins.dst >= 0 {
				set(def[i], ins.dst)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.blocks) - 1; i >= 0; i-- {
			out := append([]uint64(nil), phiUse[i]...)
			for _, s := range f.blocks[i].succs {
				for w := range out {
					out[w] |= in[s][w]
				}
			}
			for w := range out {
				nv := use[i][w] | out[w]&^def[i][w]
				if nv != in[i][w] {
					in[i][w] = nv
					changed = true
				}
			}
		}
	}
	f.live = in
	return in[b]
}

func (ins *Instr) ssaOperands(f *Func) []int32 {
	var out []int32
	for _, p := range ins.in.Operands(nil) {
		if p == nil || *p == nil {
			continue
		}
		if i, ok := f.idx[*p]; ok {
			out = append(out, i)
		}
	}
	return out
}
