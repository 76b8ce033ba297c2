package exec

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"gosym/smt"
)

type job struct {
	prefix []dec
	model  smt.Model
}

// Explorer explores all paths of one harness with several workers.
type Explorer struct {
	P       *Prog
	Cfg     *Config
	Entry   *ssa.Function
	Workers int
	Solver  []string
	SolMS   int
	Seed    uint64
	// Confirm is asked about every candidate violation; true stops the exploration.
	Confirm func(v *Violation) bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []job
	idle    int
	stop    atomic.Bool
	hungry  atomic.Int32
	paths   atomic.Int64
	perMsg  map[string]int
	Left    int // unexplored choices when stopped early
	LastErr string
}

// Run explores until done, stopped, or out of time.
func (e *Explorer) Run() (*Result, smt.Stats) {
	e.cond = sync.NewCond(&e.mu)
	e.perMsg = map[string]int{}
	e.queue = []job{{model: smt.Model{}}}
	res := newResult()
	var st smt.Stats
	var wg sync.WaitGroup
	var rm sync.Mutex
	for w := 0; w < e.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := NewM(e.P, e.Cfg, e.Solver, e.SolMS)
			m.ex = e
			m.rng += uint64(w)*7919 + e.Seed*104729
			defer m.Close()
			e.work(m)
			m.collectFuncs()
			rm.Lock()
			defer rm.Unlock()
			res.merge(m.R)
			s := m.Stats()
			st.Add(s)
		}(w)
	}
	wg.Wait()
	return res, st
}

func (e *Explorer) work(m *M) {
	for {
		e.mu.Lock()
		e.idle++
		for len(e.queue) == 0 && e.idle < e.Workers && !e.stop.Load() {
			e.hungry.Store(int32(e.idle))
			e.cond.Wait()
		}
		if len(e.queue) == 0 || e.stop.Load() {
			e.stop.Store(true)
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		j := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.idle--
		e.hungry.Store(int32(e.idle))
		e.mu.Unlock()
		m.runJob(e, j)
	}
}

func (m *M) runJob(e *Explorer, j job) {
	m.frames, m.choices, m.pend, m.pendIdx = nil, nil, nil, 0
	m.truncPC(0)
	m.trace, m.inputs, m.obs, m.docs, m.hashes = nil, nil, nil, nil, nil
	m.clock = Value{}
	m.loc, m.tail = nil, nil
	m.model = j.model
	m.shorts = nil
	m.replay, m.repIdx = j.prefix, 0
	m.steps = 0
	m.jour = true
	defer func() {
		m.rollback(0)
		m.jour = false
	}()
	f := m.funcFor(e.Entry)
	if !f.done {
		m.compile(f)
	}
	m.ensureInit(e.Entry.Pkg)
	m.pushFrame(f, nil, nil, -1)
	for {
		s0 := m.steps
		o := m.run(0)
		m.R.Steps += m.steps - s0
		m.finishPath(o)
		n := e.paths.Add(1)
		if m.stopped || e.Cfg.MaxPaths > 0 && n >= int64(e.Cfg.MaxPaths) {
			e.stop.Store(true)
		}
		if e.stop.Load() {
			e.mu.Lock()
			e.Left += len(m.choices) + len(e.queue)
			e.queue = nil
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		for e.hungry.Load() > 0 && len(m.choices) > 1 {
			ch := m.choices[0]
			m.choices = m.choices[1:]
			p := append(append([]dec{}, m.trace[:ch.trLen]...), ch.pend...)
			e.mu.Lock()
			e.queue = append(e.queue, job{prefix: p, model: ch.model})
			e.hungry.Add(-1)
			e.cond.Signal()
			e.mu.Unlock()
		}
		if len(m.choices) == 0 {
			return
		}
		ch := m.choices[len(m.choices)-1]
		m.choices = m.choices[:len(m.choices)-1]
		m.replay, m.repIdx = nil, 0
		m.restore(ch)
	}
}

func (m *M) finishPath(o outcome) {
	R := m.R
	m.loc = nil
	m.confirm()
	switch o.kind {
	case oFinished:
		R.Paths++
		m.sample("")
	case oInfeasible:
		R.Infeasible++
	case oPanicked:
		R.Paths++
		m.violation("panic", "panic: "+o.msg, m.model)
	case oUnsupported:
		R.Unsup[o.msg]++
		m.unfinished()
		if m.cfg.Debug && R.Unsup[o.msg] == 1 {
			fmt.Printf("unsupported: %s\n   at %s\n", o.msg, m.where())
		}
	case oBudgetOut:
		if o.msg != "deadline" && m.cfg.Debug && R.Budget == 0 {
			fmt.Printf("budget: %s\n", o.msg)
		}
		R.Budget++
		if o.msg != "deadline" {
			m.unfinished()
		}
	default:
		R.Unsup[fmt.Sprintf("internal: outcome %d %s", o.kind, o.msg)]++
	}
}

// unfinished keeps a model of a path that could not be followed to its end,
// for a run of the real code.
func (m *M) unfinished() {
	R := m.R
	R.UnfinSeen++
	k := len(R.UnfinIn)
	if k >= maxUnfinished {
		if k = int(m.rand() % uint64(R.UnfinSeen)); k >= maxUnfinished {
			return
		}
		R.UnfinIn[k] = m.inputVals(m.model)
		return
	}
	R.UnfinIn = append(R.UnfinIn, m.inputVals(m.model))
}

const maxUnfinished = 40

func (m *M) rand() uint64 {
	m.rng ^= m.rng << 13
	m.rng ^= m.rng >> 7
	m.rng ^= m.rng << 17
	return m.rng
}

func (m *M) sample(pan string) {
	if m.cfg.SamplePaths == 0 {
		return
	}
	m.R.SampleSeen++
	k := len(m.R.Samples)
	if k >= m.cfg.SamplePaths {
		k = int(m.rand() % uint64(m.R.SampleSeen))
		if k >= m.cfg.SamplePaths {
			return
		}
	} else {
		m.R.Samples = append(m.R.Samples, Sample{})
	}
	s := Sample{Inputs: m.inputVals(m.model), Panic: pan}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.Label+"="+m.render(o.V))
	}
	m.R.Samples[k] = s
}

func (m *M) evalN(v Value) uint64 {
	if t := v.term(); t != nil {
		return smt.Eval(t, m.model)
	}
	return v.N
}

func (m *M) evalStr(v Value) string {
	if v.P == nil {
		return ""
	}
	s := v.P.(*Str)
	if s.T == nil {
		return s.S
	}
	b := []byte(s.S)
	for i, t := range s.T {
		if t != nil {
			b[i] = byte(smt.Eval(t, m.model))
		}
	}
	return string(b)
}

// render formats an observed value exactly as sym.Render does natively.
func (m *M) render(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "<nil>"
	}
	switch u := i.T.U.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return strconv.FormatBool(m.evalN(i.V) != 0)
		case u.Info()&types.IsInteger != 0:
			n := numOf(i.T.T)
			x := m.evalN(i.V)
			if n.signed {
				return strconv.FormatInt(sext(x, n.w), 10)
			}
			return strconv.FormatUint(x, 10)
		case u.Info()&types.IsString != 0:
			return strconv.Quote(m.evalStr(i.V))
		case u.Kind() == types.Float64:
			return strconv.FormatFloat(math.Float64frombits(m.evalN(i.V)), 'g', -1, 64)
		}
	case *types.Slice:
		a := sliceOf(i.V)
		if kindOf(u.Elem()).String() == "uint8" {
			b := make([]byte, len(a))
			for k, e := range a {
				b[k] = byte(m.evalN(e))
			}
			return strconv.Quote(string(b))
		}
		if kindOf(u.Elem()).String() == "string" {
			var ss []string
			for _, e := range a {
				ss = append(ss, strconv.Quote(m.evalStr(e)))
			}
			return "[" + strings.Join(ss, " ") + "]"
		}
	}
	return "?"
}

func (r *Result) merge(o *Result) {
	r.Paths += o.Paths
	r.Infeasible += o.Infeasible
	r.Forks += o.Forks
	r.Forced += o.Forced
	r.Merges += o.Merges
	r.MergeFail += o.MergeFail
	r.Steps += o.Steps
	r.Violations = append(r.Violations, o.Violations...)
	for k, v := range o.Covers {
		r.Covers[k] += v
	}
	for k, v := range o.CoverIn {
		if r.CoverIn[k] == nil {
			r.CoverIn[k] = v
		}
	}
	for k, v := range o.Unsup {
		r.Unsup[k] += v
	}
	r.UnfinIn = append(r.UnfinIn, o.UnfinIn...)
	r.UnfinSeen += o.UnfinSeen
	r.Unknown += o.Unknown
	r.Budget += o.Budget
	r.Asserts += o.Asserts
	r.Confirmed += o.Confirmed
	r.AssertsTriv += o.AssertsTriv
	r.Samples = append(r.Samples, o.Samples...)
	for k, v := range o.Funcs {
		r.Funcs[k] += v
	}
	r.MapOrders += o.MapOrders
	for k, v := range o.SiteForks {
		r.SiteForks[k] += v
	}
	r.SampleSeen += o.SampleSeen
	r.Dropped += o.Dropped
}

// TopSites lists the sites that forked most.
func (r *Result) TopSites(n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range r.SiteForks {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
	var out []string
	for i := 0; i < n && i < len(l); i++ {
		out = append(out, fmt.Sprintf("%s %d", l[i].k, l[i].v))
	}
	return out
}

// FuncsExecuted returns interpreted functions with step counts.
func (m *M) collectFuncs() {
	for _, f := range m.funcs {
		if f.steps > 0 {
			m.R.Funcs[f.Name] += f.steps
		}
	}
}

// candidate handles a possible violation: it counts only if the real code confirms it.
func (e *Explorer) candidate(m *M, v Violation) {
	e.mu.Lock()
	e.perMsg[v.Msg]++
	k := e.perMsg[v.Msg]
	e.mu.Unlock()
	if k > maxCandidates || e.stop.Load() {
		m.R.Dropped++
		return
	}
	if e.Confirm != nil && e.Confirm(&v) {
		v.Confirmed = true
		e.stop.Store(true)
	}
	m.R.Violations = append(m.R.Violations, v)
}

const maxCandidates = 12
