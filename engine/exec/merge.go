package exec

import (
	"fmt"
	"go/types"
	"os"

	"gosym/smt"
)

const (
	localStepBudget = 30000
	localPathBudget = 40
	maxIntLeaves    = 4
)

// local is the state of one merge attempt.
type local struct {
	depth   int // frames at the branch
	block   int // stop block, -1 = return of the frame
	prev    int
	ret     Value
	choices []*choice
	outs    []*localOut
	steps   int
	cellT   map[*Value]types.Type
	fresh   [][]Value
	freshP  map[*Value]bool
	baseSeq int64
	why     string
	parent  *local
	basePC  int
}

type localOut struct {
	guard  *smt.Term
	frame  *Frame
	prev   int
	ret    Value
	writes map[*Value]Value
	order  []*Value
}

func (m *M) localInfeasible() bool {
	r, _ := m.solver().Check(m.pc, nil, nil, false)
	return r == smt.Unsat
}

func (l *local) isFresh(p *Value) bool {
	for x := l; x != nil; x = nil {
		if x.freshP[p] {
			return true
		}
	}
	for _, a := range l.fresh {
		// pointer within the backing array?
		if inArray(a, p) {
			return true
		}
	}
	return false
}

// tryMerge explores both sides of the branch up to its join point and merges
// the resulting states. On failure the state is as before.
func (m *M) tryMerge(ins *Instr) bool {
	f := m.cur()
	R := f.fn.blocks[f.blk].ipdom
	depth := len(m.frames)
	base := m.snapFrames()
	jm, pcl := len(m.journal), len(m.pc)
	sJ, sPC, sTr, sIn, sOb, sDoc, sCl := m.iJ, m.iPC, m.iTr, m.iIn, m.iOb, m.iDoc, m.iClock
	steps := m.steps
	saveLoc, savePend, savePI := m.loc, m.pend, m.pendIdx
	loc := &local{depth: depth, block: R, cellT: map[*Value]types.Type{}, freshP: map[*Value]bool{}, baseSeq: m.allocSeq, parent: saveLoc, basePC: len(m.pc)}
	m.loc = loc
	trl := len(m.trace)
	mk := func(b bool) *choice {
		return &choice{frames: base, jmark: jm, pcLen: pcl, trLen: trl, inLen: len(m.inputs), obLen: len(m.obs), docLen: len(m.docs), hashes: m.hashes, pend: []dec{{k: 0, taken: b}}, steps: m.steps, clock: m.clock}
	}
	loc.choices = []*choice{mk(false), mk(true)}
	ok := true
	for len(loc.choices) > 0 && ok {
		ch := loc.choices[len(loc.choices)-1]
		loc.choices = loc.choices[:len(loc.choices)-1]
		m.restore(ch)
		o := m.run(0)
		switch o.kind {
		case oStop:
			if len(loc.outs) >= localPathBudget {
				loc.why = "outs"
				ok = false
				break
			}
			ok = m.collect(loc, jm, pcl)
		case oInfeasible:
		case oUnsupported:
			if !m.localInfeasible() {
				loc.why = "unsup " + o.msg
				ok = false
			}
		default:
			if loc.why == "" {
				loc.why = fmt.Sprint("outcome ", o.kind, o.msg)
			}
			ok = false
		}
	}
	totalSteps := loc.steps
	m.rollback(jm)
	m.frames = append(m.frames[:0:0], base...)
	m.truncPC(pcl)
	m.trace = m.trace[:trl]
	m.loc, m.pend, m.pendIdx = saveLoc, savePend, savePI
	m.iJ, m.iPC, m.iTr, m.iIn, m.iOb, m.iDoc, m.iClock = sJ, sPC, sTr, sIn, sOb, sDoc, sCl
	m.steps = steps
	if saveLoc != nil {
		saveLoc.steps += totalSteps
		for p := range loc.freshP {
			saveLoc.freshP[p] = true
		}
		saveLoc.fresh = append(saveLoc.fresh, loc.fresh...)
	}
	if ok && len(loc.outs) > 0 {
		ok = m.applyMerge(loc, R)
	} else {
		ok = false
	}
	if ok {
		ins.site.ok++
		m.R.Merges++
	} else {
		ins.site.fail++
		m.R.MergeFail++
		if m.cfg.Debug && os.Getenv("GOSYM_MERGE") != "" {
			fmt.Fprintf(os.Stderr, "merge fail %s: %s\n", m.where(), loc.why)
		}
	}
	return ok
}

func (m *M) collect(loc *local, jm, pcl int) bool {
	o := &localOut{prev: loc.prev, ret: loc.ret, writes: map[*Value]Value{}}
	o.frame = m.frames[loc.depth-1]
	o.guard = m.c.And(m.pc[pcl:]...)
	for i := jm; i < len(m.journal); i++ {
		j := &m.journal[i]
		if j.undo != nil {
			if j.old.N > uint64(loc.baseSeq) {
				continue // object born inside the region
			}
			loc.why = "undo entry"
			return false
		}
		if _, ok := o.writes[j.p]; !ok {
			o.order = append(o.order, j.p)
		}
		o.writes[j.p] = *j.p
	}
	loc.outs = append(loc.outs, o)
	return true
}

func (m *M) applyMerge(loc *local, R int) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if r == errMerge {
				ok = false
				return
			}
			panic(r)
		}
	}()
	outs := loc.outs
	gs := make([]*smt.Term, len(outs))
	for i, o := range outs {
		gs[i] = o.guard
	}
	mg := &merger{m: m, gs: gs, loc: loc}
	type wr struct {
		p *Value
		v Value
	}
	var writes []wr
	seen := map[*Value]bool{}
	for _, o := range outs {
		for _, p := range o.order {
			if seen[p] {
				continue
			}
			seen[p] = true
			if len(outs) > 1 && loc.isFresh(p) {
				continue
			}
			vs := make([]Value, len(outs))
			for i, o2 := range outs {
				if v, ok := o2.writes[p]; ok {
					vs[i] = v
				} else {
					vs[i] = *p
				}
			}
			writes = append(writes, wr{p, mg.vals(vs, loc.cellT[p])})
		}
	}
	vs := make([]Value, len(outs))
	if R < 0 {
		f := m.frames[len(m.frames)-1]
		var ret Value
		if !f.isDefer && f.dst >= 0 {
			for i, o := range outs {
				vs[i] = o.ret
			}
			res := f.fn.S.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				ret = mg.vals(vs, res.At(0).Type())
			default:
				ret = mg.vals(vs, res)
			}
		}
		for _, o := range outs {
			if o.frame.defers != nil {
				loc.why = "defers"
				return false
			}
		}
		for _, w := range writes {
			m.set(w.p, w.v)
		}
		m.doReturn(ret)
		return true
	}
	f := m.frames[len(m.frames)-1]
	for _, o := range outs {
		if o.frame.defers != f.defers || o.frame.pan != nil {
			loc.why = "defers"
			return false
		}
	}
	type rg struct {
		r int32
		v Value
	}
	var regs []rg
	blk := f.fn.blocks[R]
	phi := map[int32]bool{}
	for k := 0; k < blk.nphi; k++ {
		ins := &blk.ins[k]
		phi[ins.dst] = true
		for i, o := range outs {
			e := -1
			for x, p := range blk.preds {
				if p == o.prev {
					e = x
					break
				}
			}
			vs[i] = o.frame.get(ins.args[e])
		}
		regs = append(regs, rg{ins.dst, mg.vals(vs, f.fn.regType(ins.dst))})
	}
	live := f.fn.liveIn(R)
	for r := 0; r < f.fn.nreg; r++ {
		if live[r/64]>>(r%64)&1 == 0 || phi[int32(r)] {
			continue
		}
		same := true
		for i, o := range outs {
			vs[i] = o.frame.regs[r]
			if vs[i] != f.regs[r] {
				same = false
			}
		}
		if !same {
			regs = append(regs, rg{int32(r), mg.vals(vs, f.fn.regType(int32(r)))})
		}
	}
	for _, w := range writes {
		m.set(w.p, w.v)
		if m.loc != nil {
			if t := loc.cellT[w.p]; t != nil {
				m.loc.cellT[w.p] = t
			}
		}
	}
	fr := m.cur()
	for _, x := range regs {
		fr.regs[x.r] = x.v
	}
	fr.blk, fr.pc = R, blk.nphi
	fr.prev = outs[0].prev
	return true
}

func (f *Func) regType(r int32) types.Type {
	if f.rtypes == nil {
		f.rtypes = make([]types.Type, f.nreg)
		for v, i := range f.idx {
			f.rtypes[i] = v.Type()
		}
	}
	return f.rtypes[r]
}

type mergeErr struct{}

var errMerge = mergeErr{}

type merger struct {
	m   *M
	gs  []*smt.Term
	loc *local
}

func (g *merger) fail(why string) {
	g.loc.why = "merge: " + why
	panic(errMerge)
}

func (g *merger) vals(vs []Value, t types.Type) Value {
	same := true
	for _, v := range vs[1:] {
		if v.N != vs[0].N || v.P != vs[0].P {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	var n num
	isStr := false
	if t != nil {
		n = numOf(t)
		isStr = n.isStr
	}
	var first any
	for _, v := range vs {
		if v.P != nil {
			first = v.P
			break
		}
	}
	if first == nil && (t == nil || (n.w == 0 && !isStr)) {
		g.fail("untyped scalars")
	}
	if n.w == 0 && !isStr {
		switch x := first.(type) {
		case *smt.Term:
			n = num{w: uint8(x.Sort)}
			if x.Sort == smt.Bool {
				n.w = 1
			} else if x.Sort == smt.FP {
				n = num{w: 64, float: true}
			}
		case *Str:
			isStr = true
		}
	}
	switch {
	case isStr:
		ln := strLen(vs[0])
		for _, v := range vs {
			if _, bad := isPoison(v); bad || strLen(v) != ln {
				g.fail("string lengths")
			}
		}
		out := make([]Value, ln)
		bs := make([]Value, len(vs))
		for i := range out {
			for k, v := range vs {
				bs[k] = strByte(v, i)
			}
			out[i] = g.scalar(bs, num{w: 8})
		}
		return strOfBytes(out)
	case n.w > 0:
		return g.scalar(vs, n)
	}
	switch x := first.(type) {
	case *Agg:
		out := make([]Value, len(x.E))
		es := make([]Value, len(vs))
		for i := range out {
			for k, v := range vs {
				a, ok := v.P.(*Agg)
				if !ok || len(a.E) != len(x.E) {
					g.fail("agg shape")
				}
				es[k] = a.E[i]
			}
			out[i] = g.vals(es, elemType(t, i))
		}
		return Value{P: &Agg{out}}
	case *Iface:
		es := make([]Value, len(vs))
		for k, v := range vs {
			a, ok := v.P.(*Iface)
			if !ok || a.T != x.T {
				g.fail("iface types")
			}
			es[k] = a.V
		}
		return Value{P: &Iface{T: x.T, V: g.vals(es, x.T.T)}}
	case *Slice:
		for _, v := range vs {
			a, ok := v.P.(*Slice)
			if !ok || len(a.A) != len(x.A) || cap(a.A) != cap(x.A) || cap(a.A) > 0 && &a.A[:1][0] != &x.A[:1][0] {
				g.fail("slices")
			}
		}
		return vs[0]
	}
	g.fail(fmt.Sprintf("%T", first))
	return Value{}
}

func elemType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.(type) {
	case *types.Tuple:
		return u.At(i).Type()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (g *merger) scalar(vs []Value, n num) Value {
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if n.float && n.w == 32 {
		g.fail("float32")
	}
	for _, v := range vs {
		if v.P != nil {
			if _, ok := v.P.(*smt.Term); !ok {
				g.fail(fmt.Sprintf("scalar %T", v.P))
			}
		}
	}
	m := g.m
	r := m.term(vs[len(vs)-1], n)
	for i := len(vs) - 2; i >= 0; i-- {
		r = m.c.Ite(g.gs[i], m.term(vs[i], n), r)
	}
	if n.w == 64 && !n.float {
		set := map[uint64]bool{}
		if leaves(r, set, 0) && len(set) > maxIntLeaves {
			g.fail("int leaves")
		}
	}
	return termV(r)
}

// leaves collects constant leaves; false if some leaf is not constant.
func leaves(t *smt.Term, set map[uint64]bool, d int) bool {
	switch t.Op {
	case smt.OpConst:
		set[t.Val] = true
		return true
	case smt.OpIte:
		if d > 60 {
			return false
		}
		return leaves(t.Args[1], set, d+1) && leaves(t.Args[2], set, d+1)
	}
	return false
}

// mergeAllowed applies the heuristics for trying a merge at a branch.
func (m *M) mergeAllowed(f *Frame, ins *Instr) bool {
	if m.cfg.NoMerge || m.inInit > 0 || m.rc != nil {
		return false
	}
	s := ins.site
	if s.fail >= 3 && s.fail > 2*s.ok {
		return false
	}
	if f.fn.Pkg == harnessPkg {
		return false
	}
	R := f.fn.blocks[f.blk].ipdom
	if m.loc != nil && m.loc.depth == len(m.frames) && m.loc.block == R {
		return false
	}
	if m.loc != nil && m.loc.nest() > 6 {
		return false
	}
	return true
}

func (l *local) nest() int {
	n := 0
	for x := l; x != nil; x = x.parent {
		n++
	}
	return n
}

func (m *M) execIf(f *Frame, ins *Instr) bool {
	blk := f.fn.blocks[f.blk]
	t, b, conc := m.condTerm(f.get(ins.a))
	if conc {
		if b {
			return m.jump(f, blk.succs[0])
		}
		return m.jump(f, blk.succs[1])
	}
	dest := func(b bool) bool {
		f := m.cur()
		if b {
			return m.jump(f, blk.succs[0])
		}
		return m.jump(f, blk.succs[1])
	}
	if len(m.pend) > 0 {
		return dest(m.decide(t))
	}
	if m.loc == nil && m.repIdx < len(m.replay) {
		if m.replay[m.repIdx].k == 2 {
			m.repIdx++
			m.trace = append(m.trace, dec{k: 2})
			if !m.tryMerge(ins) {
				panic(unsupported{"replay merge mismatch"})
			}
			return false
		}
		return dest(m.decide(t))
	}
	if im := m.implied(t); im != 0 {
		m.shortcut(t, im > 0)
		m.record(dec{k: 1, taken: im > 0})
		return dest(im > 0)
	}
	if m.loc != nil {
		if m.mergeAllowed(f, ins) && m.tryMerge(ins) {
			return false
		}
		return dest(m.decide(t))
	}
	if m.inInit > 0 {
		panic(unsupported{"symbolic branch in init"})
	}
	cur := m.evalBool(t)
	alt := t
	if cur {
		alt = m.not(t)
	}
	r, md := m.feasible(alt)
	if r == smt.Unsat {
		m.R.Forced++
		m.record(dec{k: 1, taken: cur})
		return dest(cur)
	}
	if r == smt.Sat {
		if m.mergeAllowed(m.cur(), ins) && m.tryMerge(ins) {
			m.trace = append(m.trace, dec{k: 2})
			return false
		}
		m.noteFork()
		m.pushChoice(dec{k: 0, taken: !cur}, md)
	}
	m.record(dec{k: 0, taken: cur})
	m.addLit(t, cur)
	return dest(cur)
}
