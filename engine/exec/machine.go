package exec

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"gosym/smt"
)

// Frame is an activation record. Frames with shared set are copied before writing.
type Frame struct {
	fn        *Func
	regs      []Value
	blk, pc   int
	prev      int
	dst       int32
	shared    bool
	isDefer   bool
	recovered bool
	defers    *deferRec
	pan       *panicRec
}

type deferRec struct {
	next *deferRec
	clo  *Closure
	args []Value
	bi   *Instr // builtin
}

type panicRec struct {
	val    Value
	goexit bool
}

type jent struct {
	p    *Value
	old  Value
	undo func()
}

type pcEnt struct {
	v      *smt.Term // variable whose domain changed
	oldDom *dom
	multi  []*smt.Term
}

type dom [4]uint64

type dec struct {
	k     uint8 // 0 forked, 1 forced, 2 merged, 3 concretised
	taken bool
	v     uint64
}

// Input is one nondeterministic value drawn by the harness.
type Input struct {
	Kind string
	Name string
	Var  *smt.Term
	Val  uint64 // when there is no variable
}

type choice struct {
	frames []*Frame
	jmark  int
	pcLen  int
	trLen  int
	inLen  int
	obLen  int
	docLen int
	hashes []hashed
	pend   []dec
	model  smt.Model
	steps  int64
	clock  Value
}

// Obs is an observation made by the harness.
type Obs struct {
	Label string
	V     Value
	n     num
}

// Violation is a failed assertion with the inputs that break it.
type Violation struct {
	Msg       string
	Kind      string
	Inputs    []InputVal
	Where     string
	Confirmed bool
	Note      string
}

type InputVal struct {
	Kind string `json:"kind"`
	Name string `json:"name,omitempty"`
	Val  uint64 `json:"val"`
}

// M is one symbolic execution worker.
type M struct {
	p       *Prog
	c       *smt.Ctx
	sol     *smt.Solver
	solArgv []string
	epoch   int
	solMS   int
	funcs   map[*ssa.Function]*Func
	types   map[types.Type]*Type
	globals map[*ssa.Global]*Value
	initSt  map[*ssa.Package]int
	inInit  int
	methC   map[methKey]*Func
	implC   map[implKey]bool
	rv      *Type // reflect.Value
	rtypeT  *Type

	frames  []*Frame
	journal []jent
	jour    bool
	pc      []*smt.Term
	pcEnts  []pcEnt
	pcSet   map[*smt.Term]int
	doms    map[*smt.Term]*dom
	multi   map[*smt.Term]int
	ttab    map[*smt.Term]*dom
	varsC   map[*smt.Term][]*smt.Term
	model   smt.Model
	trace   []dec
	inputs  []Input
	obs     []Obs
	docs    []*jnode
	steps   int64
	clock   Value // seconds since the start
	choices []*choice

	pend                         []dec
	pendIdx                      int
	iJ, iPC, iTr, iIn, iOb, iDoc int
	iClock                       Value

	replay []dec
	repIdx int

	loc  *local
	tail *tailCall

	// results
	R          *Result
	cfg        *Config
	covers     []string
	pathBudget int64
	deadline   time.Time
	ex         *Explorer
	outSteps   int64
	allocSeq   int64
	stopped    bool
	rng        uint64
	exts       map[string]any
	hashes     []hashed
	callOrig   bool
	rc         *raceState
	preShared  []Value
	shorts     map[*smt.Term]bool // decisions to be confirmed by the solver
}

// Config bounds an exploration.
type Config struct {
	MaxSteps    int64
	MaxPaths    int
	NoMerge     bool
	NoConfirm   bool
	NoFast      bool // no bit-set shortcut for conditions on one byte
	MapOrder    bool // explore map iteration orders in the code under test
	Debug       bool
	Deadline    time.Time
	SamplePaths int
	Params      map[string]int
}

// Result accumulates what a worker found.
type Result struct {
	Paths, Infeasible    int
	Forks, Forced        int
	Merges, MergeFail    int
	Steps                int64
	Violations           []Violation
	Covers               map[string]int
	CoverIn              map[string][]InputVal
	Unsup                map[string]int
	UnfinIn              [][]InputVal // inputs of paths that could not be followed to their end
	UnfinSeen            int
	Unknown              int
	Budget               int
	Asserts, AssertsTriv int
	Confirmed            int
	Samples              []Sample
	Funcs                map[string]int64
	MapOrders            int
	SiteForks            map[string]int
	SampleSeen           int
	Dropped              int
}

// Sample is a completed path, for validation against the real code.
type Sample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
	Panic  string     `json:"panic,omitempty"`
}

func newResult() *Result {
	return &Result{Covers: map[string]int{}, CoverIn: map[string][]InputVal{}, Unsup: map[string]int{}, Funcs: map[string]int64{}, SiteForks: map[string]int{}}
}

func NewM(p *Prog, cfg *Config, solver []string, solMS int) *M {
	m := &M{p: p, cfg: cfg, c: smt.NewCtx(), solArgv: solver, solMS: solMS,
		funcs: map[*ssa.Function]*Func{}, types: map[types.Type]*Type{}, globals: map[*ssa.Global]*Value{},
		initSt: map[*ssa.Package]int{}, methC: map[methKey]*Func{}, implC: map[implKey]bool{},
		pcSet: map[*smt.Term]int{}, doms: map[*smt.Term]*dom{}, multi: map[*smt.Term]int{}, ttab: map[*smt.Term]*dom{}, varsC: map[*smt.Term][]*smt.Term{},
		model: smt.Model{}, R: newResult(), rng: 88172645463325252, exts: map[string]any{}}
	if t := p.NamedType("reflect", "Value"); t != nil {
		m.rv = m.canon(t)
	}
	if t := p.NamedType("reflect", "rtype"); t != nil {
		m.rtypeT = m.canon(types.NewPointer(t))
	}
	return m
}

func (m *M) isReflectValue(t *Type) bool { return t == m.rv && m.rv != nil }

func (m *M) solver() *smt.Solver {
	if m.sol == nil || m.sol.Err != nil {
		var st smt.Stats
		if m.sol != nil {
			st = m.sol.Stats
			m.sol.Close()
		}
		m.epoch++
		s, err := smt.Start(m.solArgv, m.solMS, m.epoch)
		if err != nil {
			panic(err)
		}
		s.Stats = st
		m.sol = s
	}
	return m.sol
}

func (m *M) Stats() smt.Stats {
	if m.sol == nil {
		return smt.Stats{}
	}
	return m.sol.Stats
}

func (m *M) Close() {
	if m.sol != nil {
		m.sol.Close()
	}
}

// ---- memory ----

func (m *M) set(p *Value, v Value) {
	if m.rc != nil && m.rc.shared[p] {
		m.raceAccess(p, true)
		m.publish(v)
	}
	if m.jour {
		m.journal = append(m.journal, jent{p: p, old: *p})
	}
	*p = v
}

func (m *M) onUndo(f func()) {
	if m.jour {
		m.journal = append(m.journal, jent{undo: f})
	}
}

func (m *M) rollback(mark int) {
	for i := len(m.journal) - 1; i >= mark; i-- {
		j := &m.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.p = j.old
		}
		*j = jent{}
	}
	m.journal = m.journal[:mark]
}

// store writes v to *p, element-wise for aggregates.
func (m *M) store(p *Value, v Value) {
	if src, ok := v.P.(*Agg); ok {
		if dst, ok := p.P.(*Agg); ok && len(dst.E) == len(src.E) {
			for i := range src.E {
				m.store(&dst.E[i], src.E[i])
			}
			return
		}
		m.set(p, copyVal(v))
		return
	}
	m.set(p, v)
}

// storeT is store with a static type, recorded when merging.
func (m *M) storeT(p *Value, v Value, t types.Type) {
	if m.loc != nil {
		m.noteTypes(p, v, t)
	}
	m.store(p, v)
}

func (m *M) noteTypes(p *Value, v Value, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		d, ok := p.P.(*Agg)
		if !ok {
			return
		}
		if s, ok := v.P.(*Agg); ok && len(s.E) == len(d.E) && u.NumFields() == len(d.E) {
			for i := range d.E {
				m.noteTypes(&d.E[i], s.E[i], u.Field(i).Type())
			}
		}
	case *types.Array:
		d, ok := p.P.(*Agg)
		if !ok {
			return
		}
		if s, ok := v.P.(*Agg); ok && len(s.E) == len(d.E) {
			for i := range d.E {
				m.noteTypes(&d.E[i], s.E[i], u.Elem())
			}
		}
	default:
		m.loc.cellT[p] = t
	}
}

func (m *M) load(p *Value) Value {
	if m.rc != nil {
		m.raceRead(p)
	}
	if _, ok := p.P.(*Agg); ok {
		return copyVal(*p)
	}
	return *p
}

func (m *M) noteFresh(a []Value) {
	if m.loc != nil && len(a) > 0 {
		m.loc.fresh = append(m.loc.fresh, a)
	}
}

func (m *M) alloc(t types.Type) *Value {
	p := new(Value)
	*p = m.zero(t)
	m.noteFreshVal(p)
	return p
}

func (m *M) newCell(v Value) *Value {
	p := new(Value)
	*p = v
	m.noteFreshVal(p)
	return p
}

func (m *M) noteFreshVal(p *Value) {
	if m.loc == nil {
		return
	}
	m.loc.freshP[p] = true
	if a, ok := p.P.(*Agg); ok {
		for i := range a.E {
			m.noteFreshVal(&a.E[i])
		}
	}
}

func (m *M) global(g *ssa.Global) *Value {
	if p := m.globals[g]; p != nil {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// ---- package initialisation ----

// ensureInit runs the package initialiser concretely, tolerating unsupported code.
func (m *M) ensureInit(p *ssa.Package) {
	if p == nil || m.initSt[p] != 0 {
		return
	}
	m.initSt[p] = 1
	if skipInit[p.Pkg.Path()] {
		return
	}
	p.Build()
	fn := p.Func("init")
	if fn == nil {
		return
	}
	// save state
	sv := *m
	m.frames, m.jour, m.loc, m.choices = nil, false, nil, nil
	m.pend, m.pendIdx, m.replay, m.repIdx = nil, 0, nil, 0
	m.inInit++
	f := m.funcFor(fn)
	if !f.done {
		m.compile(f)
	}
	m.pushFrame(f, nil, nil, -1)
	steps0 := m.steps
	for {
		o := m.run(0)
		if o.kind == oUnsupported || o.kind == oPanicked {
			if m.cfg.Debug && os.Getenv("GOSYM_INIT") != "" {
				fmt.Fprintf(os.Stderr, "init %s: %s at %s\n", p.Pkg.Path(), o.msg, m.where())
			}
			// poison the failing instruction of the init frame and go on
			m.frames = m.frames[:1]
			fr := m.frames[0]
			fr.pan = nil
			fr.defers = nil
			ins := &fr.fn.blocks[fr.blk].ins[fr.pc]
			if ins.op == oIf || ins.op == oReturn || ins.op == oPanic {
				break
			}
			// calls have already advanced pc? we advance at return, so pc is at the call
			if ins.dst >= 0 {
				fr.regs[ins.dst] = poison(o.msg)
			}
			fr.pc++
			m.pend = nil
			continue
		}
		break
	}
	sv.funcs, sv.types, sv.globals, sv.initSt, sv.methC, sv.implC = m.funcs, m.types, m.globals, m.initSt, m.methC, m.implC
	sv.allocSeq = m.allocSeq
	sv.sol, sv.epoch = m.sol, m.epoch
	_ = steps0
	*m = sv
	m.initSt[p] = 2
}

// ---- frames ----

func (m *M) cur() *Frame {
	i := len(m.frames) - 1
	f := m.frames[i]
	if f.shared {
		f = m.unshare(i)
	}
	return f
}

func (m *M) unshare(i int) *Frame {
	f := m.frames[i]
	if !f.shared {
		return f
	}
	n := *f
	n.shared = false
	n.regs = make([]Value, len(f.regs))
	copy(n.regs, f.regs)
	m.frames[i] = &n
	return &n
}

func (m *M) snapFrames() []*Frame {
	out := make([]*Frame, len(m.frames))
	for i, f := range m.frames {
		f.shared = true
		out[i] = f
	}
	return out
}

const maxDepth = 2000

func (m *M) pushFrame(f *Func, args, free []Value, dst int32) {
	if len(m.frames) > maxDepth {
		panic(unsupported{"call depth"})
	}
	if f.S.Blocks == nil {
		panic(unsupported{"no body: " + f.Name})
	}
	fr := &Frame{fn: f, dst: dst, prev: -1}
	fr.regs = make([]Value, f.nreg)
	copy(fr.regs, args)
	copy(fr.regs[f.npar:], free)
	m.frames = append(m.frames, fr)
}

func (fr *Frame) get(i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	return fr.fn.consts[^i]
}

func (m *M) where() string {
	var sb strings.Builder
	for i := len(m.frames) - 1; i >= 0 && i > len(m.frames)-8; i-- {
		f := m.frames[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
			ps := m.p.SSA.Fset.Position(f.fn.blocks[f.blk].ins[f.pc].in.Pos())
			if ps.IsValid() {
				fn := ps.Filename
				if k := strings.LastIndex(fn, "/"); k >= 0 {
					fn = fn[k+1:]
				}
				pos = fmt.Sprintf("%s:%d", fn, ps.Line)
			}
		}
		fmt.Fprintf(&sb, "%s(%s) < ", f.fn.Name, pos)
	}
	return strings.TrimSuffix(sb.String(), " < ")
}

// ---- path condition ----

func (m *M) vars(t *smt.Term) []*smt.Term {
	if v, ok := m.varsC[t]; ok {
		return v
	}
	set := map[*smt.Term]bool{}
	smt.Vars(t, set, map[*smt.Term]bool{})
	var out []*smt.Term
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID() < out[j].ID() })
	m.varsC[t] = out
	return out
}

// table returns the truth table of a boolean term over one narrow variable.
func (m *M) table(t *smt.Term, v *smt.Term) *dom {
	if d := m.ttab[t]; d != nil {
		return d
	}
	n := 2
	if v.Sort != smt.Bool {
		n = 1 << v.Sort
	}
	d := &dom{}
	md := smt.Model{}
	for i := 0; i < n; i++ {
		md[v.Name] = uint64(i)
		if smt.Eval(t, md) != 0 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	m.ttab[t] = d
	return d
}

func narrow(v *smt.Term) bool { return v != nil && (v.Sort == smt.Bool || v.Sort <= 8) }

func fullDom(v *smt.Term) dom {
	n := 2
	if v.Sort != smt.Bool {
		n = 1 << v.Sort
	}
	var d dom
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

func (m *M) domOf(v *smt.Term) dom {
	if d := m.doms[v]; d != nil {
		return *d
	}
	return fullDom(v)
}

func (d *dom) pick() (uint64, bool) {
	// prefer printable characters
	try := func(lo, hi int) (uint64, bool) {
		for i := lo; i <= hi; i++ {
			if d[i>>6]>>(i&63)&1 == 1 {
				return uint64(i), true
			}
		}
		return 0, false
	}
	if v, ok := try('a', 'z'); ok {
		return v, true
	}
	if v, ok := try(33, 126); ok {
		return v, true
	}
	return try(0, 255)
}

func (d *dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }

// addPC asserts t on the current path.
func (m *M) addPC(t *smt.Term) {
	if t == m.c.True {
		return
	}
	if t.Op == smt.OpAnd {
		for _, a := range t.Args {
			m.addPC(a)
		}
		return
	}
	if m.pcSet[t] > 0 {
		return
	}
	e := pcEnt{}
	if v := t.SingleVar(); narrow(v) {
		tt := m.table(t, v)
		od := m.doms[v]
		e.v, e.oldDom = v, od
		nd := m.domOf(v)
		for i := range nd {
			nd[i] &= tt[i]
		}
		m.doms[v] = &nd
	} else {
		e.multi = m.vars(t)
		for _, v := range e.multi {
			m.multi[v]++
		}
	}
	m.pc = append(m.pc, t)
	m.pcEnts = append(m.pcEnts, e)
	m.pcSet[t]++
}

func (m *M) truncPC(n int) {
	for i := len(m.pc) - 1; i >= n; i-- {
		t, e := m.pc[i], &m.pcEnts[i]
		m.pcSet[t]--
		if e.v != nil {
			if e.oldDom == nil {
				delete(m.doms, e.v)
			} else {
				m.doms[e.v] = e.oldDom
			}
		}
		for _, v := range e.multi {
			m.multi[v]--
		}
	}
	m.pc = m.pc[:n]
	m.pcEnts = m.pcEnts[:n]
}

// implied returns +1/-1 if the path condition syntactically decides t.
func (m *M) implied(t *smt.Term) int {
	if t == m.c.True {
		return 1
	}
	if t == m.c.False {
		return -1
	}
	if m.pcSet[t] > 0 {
		return 1
	}
	if m.pcSet[m.c.Not(t)] > 0 {
		return -1
	}
	switch t.Op {
	case smt.OpAnd:
		all := true
		for _, a := range t.Args {
			switch m.implied(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case smt.OpOr:
		all := true
		for _, a := range t.Args {
			switch m.implied(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case smt.OpNot:
		return -m.implied(t.Args[0])
	}
	if v := t.SingleVar(); !m.cfg.NoFast && narrow(v) {
		tt := m.table(t, v)
		d := m.domOf(v)
		canT, canF := false, false
		for i := range d {
			if d[i]&tt[i] != 0 {
				canT = true
			}
			if d[i]&^tt[i] != 0 {
				canF = true
			}
		}
		if !canT {
			return -1
		}
		if !canF {
			return 1
		}
	}
	return 0
}

// feasible decides whether pc ∧ t is satisfiable, returning a model.
func (m *M) feasible(t *smt.Term) (smt.Result, smt.Model) {
	if v := t.SingleVar(); !m.cfg.NoFast && narrow(v) && m.multi[v] == 0 {
		tt := m.table(t, v)
		d := m.domOf(v)
		for i := range d {
			d[i] &= tt[i]
		}
		if d.empty() {
			m.shortcut(t, false)
			return smt.Unsat, nil
		}
		val, _ := d.pick()
		md := make(smt.Model, len(m.model)+1)
		for k, x := range m.model {
			md[k] = x
		}
		md[v.Name] = val
		return smt.Sat, md
	}
	return m.solve(t)
}

// solve asks the SMT solver about pc and t.
func (m *M) solve(t *smt.Term) (smt.Result, smt.Model) {
	var vs []*smt.Term
	for _, in := range m.inputs {
		if in.Var != nil {
			vs = append(vs, in.Var)
		}
	}
	r, md := m.solver().Check(m.pc, t, vs, true)
	if r == smt.Unknown {
		m.R.Unknown++
	}
	return r, md
}

func (m *M) evalBool(t *smt.Term) bool { return smt.Eval(t, m.model) != 0 }

func (m *M) not(t *smt.Term) *smt.Term { return m.c.Not(t) }
