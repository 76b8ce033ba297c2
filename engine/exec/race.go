package exec

import (
	"fmt"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Two goroutines: sym.Concurrent(a, b) runs a as thread 0 and b as thread 1.
// Thread 1 runs to completion at one point of thread 0, which the symbolic
// byte "schedule" picks among thread 0's synchronisation operations (or after
// its end). Happens-before is tracked with vector clocks over memory reachable
// from the package variables of the code under test (and what it publishes
// there), so unordered conflicting plain accesses are reported as data races.

type vclock [2]int

func (v *vclock) join(o vclock) {
	for i := range v {
		v[i] = max(v[i], o[i])
	}
}

type access struct {
	wt, wc int // last write: thread, clock (0: none)
	rc     vclock
}

type lockState struct {
	held, holder int // held > 0: writer
	readers      int
	w, r         vclock
}

type raceState struct {
	tid    int
	vc     [2]vclock
	shared map[any]bool
	acc    map[any]access
	locks  map[*Value]lockState
	rel    map[string]vclock
	sched  *smt.Term
	ops    int
	ran    bool
	rival  Value
	quiet  bool
	nacc   int
}

const maxSchedule = 250

var syncOps = map[string]bool{}

func regSync(names string) {
	for _, n := range strings.Fields(names) {
		syncOps[n] = true
	}
}

func init() {
	regSync("(*sync.Map).Load (*sync.Map).Store (*sync.Map).LoadOrStore (*sync.Map).LoadAndDelete (*sync.Map).Delete (*sync.Map).Swap (*sync.Map).CompareAndSwap (*sync.Map).Range")
	regSync("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*sync.Mutex).TryLock (*sync.RWMutex).TryLock (*sync.RWMutex).TryRLock (*sync.Once).Do (*sync.Pool).Get (*sync.Pool).Put")
	for _, T := range strings.Fields("Int32 Int64 Uint32 Uint64 Uintptr Bool Pointer Value") {
		for _, o := range strings.Fields("Load Store Swap CompareAndSwap Add") {
			regSync("(*sync/atomic." + T + ")." + o + " sync/atomic." + o + T)
		}
	}
	reg(symPkg+".raceBegin", func(m *M, a []Value) Value { m.raceBegin(a[0]); return Value{} })
	reg(symPkg+".raceEnd", func(m *M, a []Value) Value { m.setRace(nil); return Value{} })
	reg(symPkg+".raceRan", func(m *M, a []Value) Value { return boolV(m.rc.ran) })
	reg(symPkg+".raceThread", func(m *M, a []Value) Value {
		r := m.rc
		o, or := r.tid, r.ran
		m.onUndo(func() { r.tid, r.ran = o, or })
		r.tid, r.ran = int(a[0].N), true
		return Value{}
	})
	reg(symPkg+".Shared", func(m *M, a []Value) Value {
		if m.rc != nil {
			m.publish(a[0])
		} else {
			o := m.preShared
			m.onUndo(func() { m.preShared = o })
			m.preShared = append(o[:len(o):len(o)], a[0])
		}
		return Value{}
	})
	reg(symPkg+".raceOnceDone", func(m *M, a []Value) Value {
		p := m.deref(a[0])
		m.set1(onceFlag(p), Value{N: 1})
		m.unlock(p)
		return Value{}
	})
}

func (m *M) setRace(r *raceState) {
	o := m.rc
	m.onUndo(func() { m.rc = o })
	m.rc = r
}

func (m *M) raceBegin(rival Value) {
	r := &raceState{vc: [2]vclock{{1, 0}, {0, 1}}, shared: map[any]bool{}, acc: map[any]access{}, locks: map[*Value]lockState{}, rel: map[string]vclock{}, rival: rival}
	r.sched = m.newInput("schedule", "", 8)
	m.setRace(r)
	for _, p := range m.p.SSA.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/openrdap/rdap") {
			continue
		}
		m.ensureInit(p)
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok && g.Name() != "init$guard" {
				m.publishCell(m.global(g))
			}
		}
	}
	for _, v := range m.preShared {
		m.publish(v)
	}
}

// publish makes everything reachable from v shared.
func (m *M) publish(v Value) {
	switch p := v.P.(type) {
	case *Value:
		m.publishCell(p)
	case *Agg:
		for i := range p.E {
			m.publishCell(&p.E[i])
		}
	case *Slice:
		a := p.A[:cap(p.A)]
		for i := range a {
			m.publishCell(&a[i])
		}
	case *Iface:
		m.publish(p.V)
	case *Closure:
		for _, f := range p.Free {
			m.publish(f)
		}
	case *RVal:
		if p.P != nil {
			m.publishCell(p.P)
		}
		m.publish(p.V)
	case *Map:
		if !m.share(p) {
			return
		}
		for i := range p.ents {
			m.publish(p.ents[i].k)
			m.publish(p.ents[i].v)
		}
	}
}

func (m *M) publishCell(c *Value) {
	if m.share(c) {
		m.publish(*c)
	}
}

func (m *M) share(k any) bool {
	r := m.rc
	if r.shared[k] {
		return false
	}
	r.shared[k] = true
	m.onUndo(func() { delete(r.shared, k) })
	return true
}

// raceAccess records a plain access to k.
func (m *M) raceAccess(k any, write bool) {
	r := m.rc
	if r.quiet || m.inInit > 0 || !r.shared[k] {
		return
	}
	r.nacc++
	old, had := r.acc[k]
	a := old
	t := r.tid
	u := 1 - t
	bad := a.wc > 0 && a.wt == u && a.wc > r.vc[t][u]
	if write && a.rc[u] > r.vc[t][u] {
		bad = true
	}
	if bad {
		m.violation("race", "data race: unordered accesses to shared memory, "+m.raceWhere(), m.model)
		panic(pathEnd{outcome{kind: oInfeasible}})
	}
	if write {
		a.wt, a.wc = t, r.vc[t][t]
	} else {
		a.rc[t] = r.vc[t][t]
	}
	if a != old {
		r.acc[k] = a
		m.onUndo(func() {
			if had {
				r.acc[k] = old
			} else {
				delete(r.acc, k)
			}
		})
	}
}

// raceRead records a plain read of a cell and what it contains.
func (m *M) raceRead(p *Value) {
	if !m.rc.shared[p] {
		return
	}
	m.raceAccess(p, false)
	if a, ok := p.P.(*Agg); ok {
		for i := range a.E {
			m.raceRead(&a.E[i])
		}
	}
}

func (m *M) raceWhere() string {
	for i := len(m.frames) - 1; i >= 0; i-- {
		f := m.frames[i]
		if f.fn.repo {
			ps := m.p.SSA.Fset.Position(f.fn.blocks[f.blk].ins[f.pc].in.Pos())
			return fmt.Sprintf("%s:%d", f.fn.Name, ps.Line)
		}
	}
	return m.where()
}

func (m *M) setVC(t int, v vclock) {
	r := m.rc
	o := r.vc[t]
	m.onUndo(func() { r.vc[t] = o })
	r.vc[t] = v
}

func (m *M) acquire(v vclock) {
	n := m.rc.vc[m.rc.tid]
	n.join(v)
	if n != m.rc.vc[m.rc.tid] {
		m.setVC(m.rc.tid, n)
	}
}

// releaseVC returns the current clock and starts a new epoch.
func (m *M) releaseVC() vclock {
	t := m.rc.tid
	v := m.rc.vc[t]
	n := v
	n[t]++
	m.setVC(t, n)
	return v
}

func relKey(p any, ks string) string {
	var u unsafe.Pointer
	switch p := p.(type) {
	case *Value:
		u = unsafe.Pointer(p)
	case *Map:
		u = unsafe.Pointer(p)
	}
	return fmt.Sprintf("%p/%s", u, ks)
}

func (m *M) relObj(p any, ks string) {
	if m.rc == nil {
		return
	}
	r, k := m.rc, relKey(p, ks)
	o := r.rel[k]
	n := o
	n.join(m.releaseVC())
	m.onUndo(func() { r.rel[k] = o })
	r.rel[k] = n
}

func (m *M) acqObj(p any, ks string) {
	if m.rc != nil {
		m.acquire(m.rc.rel[relKey(p, ks)])
	}
}

func (m *M) setLock(p *Value, s lockState) {
	r := m.rc
	o := r.locks[p]
	m.onUndo(func() { r.locks[p] = o })
	r.locks[p] = s
}

// lock takes the mutex p; a schedule in which it would block is not explored.
func (m *M) lock(p *Value, read, try bool) bool {
	if m.rc == nil {
		return true
	}
	s := m.rc.locks[p]
	if s.held > 0 || !read && s.readers > 0 {
		if try {
			return false
		}
		if s.held > 0 && s.holder == m.rc.tid {
			m.violation("race", "deadlock: a goroutine takes a mutex it holds, "+m.raceWhere(), m.model)
		}
		panic(pathEnd{outcome{kind: oInfeasible}})
	}
	m.acquire(s.w)
	if read {
		s.readers++
	} else {
		m.acquire(s.r)
		s.held, s.holder = 1, m.rc.tid
	}
	m.setLock(p, s)
	return true
}

func (m *M) unlock(p *Value) {
	if m.rc == nil {
		return
	}
	s := m.rc.locks[p]
	if s.held == 0 {
		m.rtPanic("sync: unlock of unlocked mutex")
	}
	s.held = 0
	s.w = m.releaseVC()
	m.setLock(p, s)
}

func (m *M) runlock(p *Value) {
	if m.rc == nil {
		return
	}
	s := m.rc.locks[p]
	s.readers--
	s.r.join(m.releaseVC())
	m.setLock(p, s)
}

// set1 writes a synchronisation object's own cell.
func (m *M) set1(p *Value, v Value) {
	if m.rc == nil {
		m.set(p, v)
		return
	}
	m.rc.quiet = true
	m.set(p, v)
	m.rc.quiet = false
	if m.rc.shared[p] {
		m.publish(v)
	}
}

// offer asks whether the other goroutine runs before this synchronisation operation.
func (m *M) offer(deferred bool) bool {
	r := m.rc
	if r.tid != 0 || r.ran || m.inInit > 0 || r.ops >= maxSchedule || !m.cur().fn.repo {
		return false
	}
	if deferred || !m.decide(m.c.Eq(r.sched, m.c.BV(uint64(r.ops), 8))) {
		m.onUndo(func() { r.ops-- })
		r.ops++
		return false
	}
	// raceRival switches threads; its return re-executes the operation
	m.enterBody(m.funcFor(m.p.Func(symPkg, "raceRival")), nil, []Value{r.rival}, -1, true)
	return true
}
