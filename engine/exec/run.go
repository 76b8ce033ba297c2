package exec

import (
	"fmt"
	"go/types"
	"time"

	"gosym/smt"
)

type outKind uint8

const (
	oFinished outKind = iota
	oUnsupported
	oPanicked
	oInfeasible
	oBudgetOut
	oStop
	oAbort
)

type outcome struct {
	kind outKind
	msg  string
	val  Value
}

// Go panics used for control flow inside one instruction.
type goPanic struct{ val Value }
type pathEnd struct{ out outcome }

var errAbort = pathEnd{outcome{kind: oAbort}}

func (m *M) abort(why string) {
	if m.loc != nil {
		m.loc.why = why
	}
	panic(errAbort)
}

func (m *M) rtPanic(format string, a ...any) {
	panic(goPanic{m.runtimeError(fmt.Sprintf(format, a...))})
}

func (m *M) runtimeError(s string) Value {
	t := m.p.NamedType("runtime", "errorString")
	if t == nil {
		return Value{P: &Iface{T: m.canon(types.Typ[types.String]), V: str("runtime error: " + s)}}
	}
	return Value{P: &Iface{T: m.canon(t), V: str(s)}}
}

// run executes until the path ends or (when merging) reaches the stop point.
func (m *M) run(base int) outcome {
	for {
		o, again := m.runInner(base)
		if !again {
			return o
		}
	}
}

func (m *M) runInner(base int) (out outcome, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				// start unwinding in the current frame
				m.pend = nil
				m.pendIdx = 0
				f := m.cur()
				f.pan = &panicRec{val: r.val}
				f.recovered = false
				again = true
			case unsupported:
				out = outcome{kind: oUnsupported, msg: r.why}
			case pathEnd:
				out = r.out
			default:
				panic(r)
			}
		}
	}()
	for {
		if len(m.frames) == base {
			return outcome{kind: oFinished}, false
		}
		f := m.cur()
		if f.pan != nil {
			if o, done := m.unwind(f, base); done {
				return o, false
			}
			continue
		}
		m.steps++
		if m.steps&0xfff == 0 {
			if m.steps > m.cfg.MaxSteps && m.inInit == 0 {
				return outcome{kind: oBudgetOut, msg: "step budget at " + m.where()}, false
			}
			if m.inInit == 0 && !m.cfg.Deadline.IsZero() && time.Now().After(m.cfg.Deadline) {
				m.stopped = true
				return outcome{kind: oBudgetOut, msg: "deadline"}, false
			}
		}
		if m.loc != nil {
			m.loc.steps++
			if m.loc.steps > localStepBudget {
				m.abort("steps")
			}
		}
		f.fn.steps++
		ins := &f.fn.blocks[f.blk].ins[f.pc]
		m.iJ, m.iPC, m.iTr, m.iIn, m.iOb, m.iDoc, m.iClock = len(m.journal), len(m.pc), len(m.trace), len(m.inputs), len(m.obs), len(m.docs), m.clock
		m.pendIdx = 0
		if m.exec(f, ins) {
			return outcome{kind: oStop}, false
		}
		if m.pend != nil {
			m.pend = nil
		}
	}
}

// finish stores the result of the current instruction and advances.
func (m *M) finish(ins *Instr, v Value) {
	f := m.cur()
	if ins.dst >= 0 {
		f.regs[ins.dst] = v
	}
	f.pc++
}

// unwind performs one step of panic processing in frame f.
func (m *M) unwind(f *Frame, base int) (outcome, bool) {
	if m.loc != nil && len(m.frames) < m.loc.depth {
		m.abort("unwind")
	}
	if f.defers != nil {
		d := f.defers
		f.defers = d.next
		m.callDeferred(d)
		return outcome{}, false
	}
	if f.recovered {
		f.pan = nil
		f.recovered = false
		if f.fn.recov >= 0 {
			f.blk, f.pc, f.prev = f.fn.recov, 0, -1
			return outcome{}, false
		}
		// no named results: return zero values
		m.doReturn(m.zeroResults(f.fn))
		return outcome{}, false
	}
	p := f.pan
	if m.loc != nil && len(m.frames) == m.loc.depth {
		// the panic leaves the merge region
		if m.localInfeasible() {
			panic(pathEnd{outcome{kind: oInfeasible}})
		}
		m.abort("panic")
	}
	m.frames = m.frames[:len(m.frames)-1]
	if len(m.frames) == base {
		return outcome{kind: oPanicked, val: p.val, msg: m.panicText(p.val)}, true
	}
	c := m.cur()
	c.pan = p
	c.recovered = false
	return outcome{}, false
}

func (m *M) zeroResults(f *Func) Value {
	res := f.S.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

func (m *M) panicText(v Value) string {
	if i, ok := v.P.(*Iface); ok {
		if i.T.T.String() == "runtime.errorString" {
			s, _ := concStr(i.V)
			return "runtime error: " + s
		}
		return show(v, 3)
	}
	return show(v, 3)
}

func (m *M) callDeferred(d *deferRec) {
	if d.bi != nil {
		m.builtin(d.bi, d.args)
		return
	}
	if d.clo == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.enter(d.clo.Fn, d.clo, d.args, -1, true)
}

// enter calls a function; dst is the caller's result register. deferred calls do not advance the caller.
func (m *M) enter(fn *Func, clo *Closure, args []Value, dst int32, deferred bool) {
	if clo != nil && clo.Nat != nil {
		v := clo.Nat(m, args)
		if !deferred {
			f := m.cur()
			if dst >= 0 {
				f.regs[dst] = v
			}
			f.pc++
		}
		return
	}
	for fn.redir != nil {
		fn = fn.redir
	}
	if m.rc != nil && fn.sync && m.offer(deferred) {
		return
	}
	if fn.intr != nil {
		m.tail = nil
		v := fn.intr(m, args)
		if m.callOrig {
			m.callOrig = false
			m.enterBody(fn, clo, args, dst, deferred)
			return
		}
		if t := m.tail; t != nil {
			m.tail = nil
			m.enter(t.fn, t.clo, t.args, dst, deferred)
			return
		}
		if !deferred {
			f := m.cur()
			if dst >= 0 {
				f.regs[dst] = v
			}
			f.pc++
		}
		return
	}
	m.enterBody(fn, clo, args, dst, deferred)
}

func (m *M) enterBody(fn *Func, clo *Closure, args []Value, dst int32, deferred bool) {
	if !fn.done {
		m.compile(fn)
	}
	if m.inInit > 0 && fn.S.Synthetic == "package initializer" {
		m.cur().pc++
		return
	}
	var free []Value
	if clo != nil {
		free = clo.Free
	}
	m.pushFrame(fn, args, free, dst)
	if deferred {
		m.frames[len(m.frames)-1].isDefer = true
	}
}

type tailCall struct {
	fn   *Func
	clo  *Closure
	args []Value
}

// tailcall makes an intrinsic continue as a call of an interpreted function.
func (m *M) tailcall(clo *Closure, args []Value) Value {
	if clo == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.tail = &tailCall{clo.Fn, clo, args}
	return Value{}
}

func (m *M) tailfn(fn *Func, args []Value) Value {
	m.tail = &tailCall{fn, nil, args}
	return Value{}
}

// doReturn pops the current frame, delivering v to its caller.
func (m *M) doReturn(v Value) {
	f := m.frames[len(m.frames)-1]
	m.frames = m.frames[:len(m.frames)-1]
	if len(m.frames) == 0 {
		return
	}
	if f.isDefer {
		return // caller re-executes RunDefers or continues unwinding
	}
	c := m.cur()
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
	c.pc++
}

// jump moves the current frame to block b; reports whether a merge stop point was reached.
func (m *M) jump(f *Frame, b int) bool {
	if m.loc != nil && m.loc.block == b && len(m.frames) == m.loc.depth {
		m.loc.prev = f.blk
		return true
	}
	f.prev = f.blk
	f.blk = b
	f.pc = 0
	blk := f.fn.blocks[b]
	if blk.nphi > 0 {
		m.phis(f, blk)
	}
	return false
}

func (m *M) phis(f *Frame, blk *Block) {
	e := -1
	for i, p := range blk.preds {
		if p == f.prev {
			e = i
			break
		}
	}
	if blk.nphi == 1 {
		f.regs[blk.ins[0].dst] = f.get(blk.ins[0].args[e])
	} else {
		var tmp [8]Value
		vs := tmp[:0]
		for i := 0; i < blk.nphi; i++ {
			vs = append(vs, f.get(blk.ins[i].args[e]))
		}
		for i := 0; i < blk.nphi; i++ {
			f.regs[blk.ins[i].dst] = vs[i]
		}
	}
	f.pc = blk.nphi
}

// ---- decisions ----

func (m *M) nextDec() (dec, bool) {
	k := m.pendIdx
	m.pendIdx++
	if k < len(m.pend) {
		return m.pend[k], true
	}
	if m.loc == nil && m.repIdx < len(m.replay) {
		d := m.replay[m.repIdx]
		m.repIdx++
		m.pend = append(m.pend[:len(m.pend):len(m.pend)], d)
		return d, true
	}
	return dec{}, false
}

func (m *M) record(d dec) {
	m.pend = append(m.pend[:len(m.pend):len(m.pend)], d)
	if m.loc == nil {
		m.trace = append(m.trace, d)
	}
}

func (m *M) pushChoice(last dec, model smt.Model) {
	pend := append(append([]dec{}, m.pend...), last)
	ch := &choice{frames: m.snapFrames(), jmark: m.iJ, pcLen: m.iPC, trLen: m.iTr, inLen: m.iIn, obLen: m.iOb, docLen: m.iDoc, hashes: m.hashes, pend: pend, model: model, steps: m.steps, clock: m.iClock}
	if m.loc != nil {
		m.loc.choices = append(m.loc.choices, ch)
		return
	}
	m.R.Forks++
	m.confirm()
	m.choices = append(m.choices, ch)
}

// shortcut notes that b was taken as the value of t without asking the
// solver; confirm asks it later.
func (m *M) shortcut(t *smt.Term, b bool) {
	if m.cfg.NoFast || m.cfg.NoConfirm || m.inInit > 0 {
		return
	}
	if !b {
		t = m.not(t)
	}
	if t == m.c.True || m.pcSet[t] > 0 {
		return
	}
	if l := m.loc; l != nil {
		for l.parent != nil {
			l = l.parent
		}
		t = m.c.Implies(m.c.And(m.pc[l.basePC:]...), t)
		if t == m.c.True {
			return
		}
	}
	if m.shorts == nil {
		m.shorts = map[*smt.Term]bool{}
	}
	m.shorts[t] = true
}

// confirm has the solver check the shortcuts taken since the last fork.
func (m *M) confirm() {
	if len(m.shorts) == 0 || m.loc != nil {
		return
	}
	ts := make([]*smt.Term, 0, len(m.shorts))
	for t := range m.shorts {
		ts = append(ts, m.not(t))
	}
	m.shorts = nil
	m.R.Confirmed += len(ts)
	q := m.c.Or(ts...)
	if q == m.c.False {
		return
	}
	switch r, _ := m.solver().Check(m.pc, q, nil, false); r {
	case smt.Sat:
		panic("engine: the solver refutes a shortcut")
	case smt.Unknown:
		m.R.Unknown++
	}
}

// decide resolves a symbolic condition, forking when both outcomes are possible.
func (m *M) decide(t *smt.Term) bool {
	if t.IsConst() {
		return t.Val != 0
	}
	if d, ok := m.nextDec(); ok {
		if d.k == 2 {
			panic(unsupported{"replay mismatch"})
		}
		if m.loc == nil {
			m.trace = append(m.trace, d)
		}
		if d.k == 0 {
			m.addLit(t, d.taken)
		}
		return d.taken
	}
	if im := m.implied(t); im != 0 {
		m.shortcut(t, im > 0)
		m.record(dec{k: 1, taken: im > 0})
		return im > 0
	}
	if m.inInit > 0 {
		panic(unsupported{"symbolic branch in init"})
	}
	if m.loc != nil {
		if len(m.loc.choices)+len(m.loc.outs) > localPathBudget {
			m.abort("paths")
		}
		m.pushChoice(dec{k: 0, taken: false}, nil)
		m.record(dec{k: 0, taken: true})
		m.addLit(t, true)
		return true
	}
	cur := m.evalBool(t)
	alt := t
	if cur {
		alt = m.not(t)
	}
	r, md := m.feasible(alt)
	if r == smt.Unsat {
		m.R.Forced++
		m.record(dec{k: 1, taken: cur})
		return cur
	}
	if r == smt.Sat {
		m.noteFork()
		m.pushChoice(dec{k: 0, taken: !cur}, md)
	}
	m.record(dec{k: 0, taken: cur})
	m.addLit(t, cur)
	return cur
}

func (m *M) noteFork() {
	f := m.frames[len(m.frames)-1]
	ps := m.p.SSA.Fset.Position(f.fn.blocks[f.blk].ins[f.pc].in.Pos())
	m.R.SiteForks[fmt.Sprintf("%s:%d", f.fn.Name, ps.Line)]++
}

func (m *M) addLit(t *smt.Term, b bool) {
	if !b {
		t = m.not(t)
	}
	m.addPC(t)
}

// concretize forks over the feasible values of t.
func (m *M) concretize(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.Val
	}
	if m.inInit > 0 {
		panic(unsupported{"symbolic value in init"})
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(unsupported{"too many values to concretise"})
		}
		if d, ok := m.nextDec(); ok {
			if d.k != 3 && d.k != 4 {
				panic(unsupported{"replay mismatch"})
			}
			if m.loc == nil {
				m.trace = append(m.trace, d)
			}
			if d.k == 3 {
				m.addLit(m.c.Eq(t, m.c.BV(d.v, t.Sort)), d.taken)
			}
			if d.taken {
				return d.v
			}
			continue
		}
		if v, ok := m.impliedConst(t); ok {
			m.shortcut(m.c.Eq(t, m.c.BV(v, t.Sort)), true)
			m.record(dec{k: 4, taken: true, v: v})
			return v
		}
		if m.loc != nil {
			m.abort("concretise")
		}
		v := smt.Eval(t, m.model)
		eq := m.c.Eq(t, m.c.BV(v, t.Sort))
		switch m.implied(eq) {
		case 1:
			m.shortcut(eq, true)
			m.record(dec{k: 4, taken: true, v: v})
			return v
		}
		r, md := m.feasible(m.not(eq))
		if r == smt.Unsat {
			m.record(dec{k: 4, taken: true, v: v})
			return v
		}
		if r == smt.Sat {
			m.noteFork()
			m.pushChoice(dec{k: 3, taken: false, v: v}, md)
		}
		m.record(dec{k: 3, taken: true, v: v})
		m.addPC(eq)
		return v
	}
}

// impliedConst reports the value of t if the domain of its only variable fixes it.
func (m *M) impliedConst(t *smt.Term) (uint64, bool) {
	v := t.SingleVar()
	if !narrow(v) {
		return 0, false
	}
	d := m.domOf(v)
	first := true
	var val uint64
	md := smt.Model{}
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 1 {
			md[v.Name] = uint64(i)
			x := smt.Eval(t, md)
			if first {
				val, first = x, false
			} else if x != val {
				return 0, false
			}
		}
	}
	return val, !first
}

// conc returns a concrete integer for an operand (forking if symbolic).
func (m *M) conc(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	if t := v.term(); t != nil {
		return m.concretize(t)
	}
	if p, ok := isPoison(v); ok {
		panic(unsupported{"poison: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("integer expected, got %T", v.P)})
}

func (m *M) condTerm(v Value) (*smt.Term, bool, bool) {
	if v.P == nil {
		return nil, v.N != 0, true
	}
	if t := v.term(); t != nil {
		return t, false, false
	}
	if p, ok := isPoison(v); ok {
		panic(unsupported{"poison condition: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("bool expected, got %T", v.P)})
}

// decideV resolves a boolean value.
func (m *M) decideV(v Value) bool {
	t, b, ok := m.condTerm(v)
	if ok {
		return b
	}
	return m.decide(t)
}

func (m *M) restore(ch *choice) {
	m.rollback(ch.jmark)
	m.frames = append(m.frames[:0:0], ch.frames...)
	m.truncPC(ch.pcLen)
	m.trace = m.trace[:ch.trLen]
	m.inputs = m.inputs[:ch.inLen]
	m.obs = m.obs[:ch.obLen]
	m.docs = m.docs[:ch.docLen]
	m.hashes = ch.hashes
	m.clock = ch.clock
	m.pend = ch.pend
	m.pendIdx = 0
	m.steps = ch.steps
	if ch.model != nil {
		m.model = ch.model
	}
}
