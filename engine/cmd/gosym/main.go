// Command gosym checks properties of the code in /repo by symbolic execution.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gosym/exec"
	"gosym/smt"
)

type runSpec struct {
	H        string         `json:"h"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	TQ       int            `json:"tq"` // seconds, quick
	TT       int            `json:"tt"` // seconds, thorough
	MapOrder bool           `json:"maporder"`
	Only     string         `json:"only"` // tier
	Bounds   string         `json:"bounds"`
	Solver   string         `json:"solver"`
	Steps    int64          `json:"steps"`
	NoFast   bool           `json:"nofast"`
}

type checkSpec struct {
	Title   string    `json:"title"`
	Runs    []runSpec `json:"runs"`
	Assume  []string  `json:"assume"`
	Outside string    `json:"outside"`
}

var solvers = map[string][]string{
	"z3":     {"z3", "-in"},
	"z3-new": {"z3-new", "-in"},
	"cvc5":   {"cvc5", "--incremental", "--produce-models", "--lang=smt2", "-q"},
}

type runReport struct {
	Harness   string         `json:"harness"`
	Params    map[string]int `json:"bounds_params"`
	Bounds    string         `json:"bounds,omitempty"`
	MapOrder  bool           `json:"map_iteration_orders_explored"`
	Paths     int            `json:"paths"`
	Infeas    int            `json:"paths_infeasible"`
	Forks     int            `json:"forks"`
	Forced    int            `json:"branches_decided_by_solver"`
	Merges    int            `json:"merges"`
	Steps     int64          `json:"ssa_instructions"`
	Asserts   int            `json:"assertions_checked"`
	AssTriv   int            `json:"assertions_concrete_on_path"`
	Confirmed int            `json:"byte_level_decisions_confirmed_by_solver"`
	Queries   int            `json:"solver_queries"`
	Sat       int            `json:"sat"`
	Unsat     int            `json:"unsat"`
	Unknown   int            `json:"unknown"`
	SolverS   float64        `json:"solver_s"`
	MaxQ      float64        `json:"slowest_query_s"`
	Wall      float64        `json:"wall_s"`
	Complete  bool           `json:"complete"`
	Left      int            `json:"choices_left"`
	Budget    int            `json:"paths_over_step_budget"`
	Unsup     map[string]int `json:"paths_not_encodable,omitempty"`
	Covers    map[string]int `json:"cover_points"`
	Validated int            `json:"paths_replayed_natively"`
	Disagree  int            `json:"replay_disagreements"`
	DisNotes  []string       `json:"replay_disagreement_notes,omitempty"`
	UnfinRun  int            `json:"unfinished_paths_run_natively"`
	Unconf    int            `json:"unconfirmed_candidates"`
	UnconfMsg []string       `json:"unconfirmed_notes,omitempty"`
	Funcs     int            `json:"-"`
	SamplesJ  []any          `json:"-"`
	top       []string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	switch os.Args[1] {
	case "run":
		runMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func parseParams(s string) map[string]int {
	out := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.Atoi(v)
			out[k] = n
		}
	}
	return out
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	dir := fs.String("dir", "/verif/harness", "harness module")
	h := fs.String("h", "", "harness")
	ps := fs.String("p", "", "params")
	tm := fs.Int("t", 60, "seconds")
	w := fs.Int("w", 8, "workers")
	dbg := fs.Bool("debug", false, "debug")
	mo := fs.Bool("maporder", false, "explore map orders")
	sv := fs.String("solver", "z3-new", "solver")
	smp := fs.Int("samples", 8, "samples per worker")
	nf := fs.Bool("nofast", false, "solver decides every branch")
	nm := fs.Bool("nomerge", false, "no merging")
	steps := fs.Int64("steps", 0, "step budget")
	fs.Parse(args)
	t0 := time.Now()
	var env envT
	env.setup(*dir)
	defer env.close()
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if env.err != nil {
		fmt.Println(env.err)
		os.Exit(2)
	}
	rs := runSpec{H: *h, Quick: parseParams(*ps), TQ: *tm, MapOrder: *mo, Solver: *sv, Steps: *steps, NoFast: *nf}
	rep, res, vio := env.run(rs, rs.Quick, time.Duration(*tm)*time.Second, *w, *smp, *dbg, *nm, 0)
	b, _ := json.MarshalIndent(rep, "", " ")
	fmt.Println(string(b))
	fmt.Println("top fork sites:")
	for _, s := range rep.top {
		fmt.Println("  ", s)
	}
	for _, v := range res.Violations {
		fmt.Printf("candidate (confirmed=%v): %s %s\n  %s\n  inputs: %s\n  note: %.800s\n", v.Confirmed, v.Kind, v.Msg, v.Where, showInputs(v.Inputs), v.Note)
	}
	for i, s := range res.Samples {
		if i < 3 {
			fmt.Println("sample:", showInputs(s.Inputs), s.Obs)
		}
	}
	if vio != nil {
		fmt.Println("VIOLATION")
	}
	if *dbg {
		var fn []string
		for f, n := range res.Funcs {
			fn = append(fn, fmt.Sprintf("%12d %s", n, f))
		}
		sort.Sort(sort.Reverse(sort.StringSlice(fn)))
		for i, f := range fn {
			if i < 25 {
				fmt.Println(f)
			}
		}
	}
}

func showInputs(in []exec.InputVal) string {
	var sb strings.Builder
	last := ""
	for _, i := range in {
		if i.Name != last {
			if sb.Len() > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(i.Name + "=")
			last = i.Name
		} else if i.Kind != "byte" {
			sb.WriteByte(',')
		}
		if i.Kind == "byte" {
			q := strconv.Quote(string([]byte{byte(i.Val)}))
			sb.WriteString(q[1 : len(q)-1])
		} else {
			fmt.Fprintf(&sb, "%d", i.Val)
		}
	}
	return sb.String()
}

// envT holds the loaded program and the native replay binary.
type envT struct {
	prog    *exec.Prog
	err     error
	dir     string
	scratch string
	bin     string
	once    sync.Mutex
	seq     int
	raceBin string
	raceErr error
}

func (e *envT) setup(dir string) {
	e.dir = dir
	e.scratch, e.err = os.MkdirTemp("", "gosym")
	if e.err != nil {
		return
	}
	e.bin = filepath.Join(e.scratch, "replay.test")
	var wg sync.WaitGroup
	var berr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		berr = buildReplay(dir, e.bin, false)
	}()
	e.prog, e.err = exec.Load(dir, nil, "./h", "./model")
	wg.Wait()
	if e.err == nil {
		e.err = berr
	}
}

func (e *envT) close() {
	if e.scratch != "" && strings.Contains(e.scratch, "gosym") {
		os.RemoveAll(e.scratch)
	}
}

func (e *envT) run(rs runSpec, params map[string]int, limit time.Duration, workers, samples int, dbg, nomerge bool, seed int64) (*runReport, *exec.Result, *exec.Violation) {
	t0 := time.Now()
	fn := e.prog.Func("verifharness/h", rs.H)
	rep := &runReport{Harness: rs.H, Params: params, Bounds: rs.Bounds, MapOrder: rs.MapOrder}
	if fn == nil {
		rep.Unsup = map[string]int{"no such harness": 1}
		return rep, &exec.Result{}, nil
	}
	sv := rs.Solver
	if sv == "" {
		sv = "z3-new"
	}
	steps := rs.Steps
	if steps == 0 {
		steps = 40_000_000
	}
	cfg := &exec.Config{MaxSteps: steps, MapOrder: rs.MapOrder, NoFast: rs.NoFast, Debug: dbg, NoMerge: nomerge, SamplePaths: samples, Params: params, Deadline: t0.Add(limit)}
	ex := &exec.Explorer{P: e.prog, Cfg: cfg, Entry: fn, Workers: workers, Solver: solvers[sv], SolMS: 20000, Seed: uint64(seed)}
	var vio *exec.Violation
	var vmu sync.Mutex
	ex.Confirm = func(v *exec.Violation) bool {
		ok := e.confirm(rs.H, params, v)
		if ok {
			vmu.Lock()
			if vio == nil {
				c := *v
				vio = &c
			}
			vmu.Unlock()
		}
		return ok
	}
	res, st := ex.Run()
	rep.Paths, rep.Infeas, rep.Forks, rep.Forced, rep.Merges = res.Paths, res.Infeasible, res.Forks, res.Forced, res.Merges
	rep.Steps, rep.Asserts, rep.AssTriv, rep.Confirmed = res.Steps, res.Asserts, res.AssertsTriv, res.Confirmed
	rep.Queries, rep.Sat, rep.Unsat, rep.Unknown = st.Queries, st.Sat, st.Unsat, st.Unknown
	rep.SolverS, rep.MaxQ = st.Time.Seconds(), st.Max.Seconds()
	rep.Left, rep.Budget = ex.Left, res.Budget
	rep.Unsup, rep.Covers = res.Unsup, res.Covers
	for _, v := range res.Violations {
		if !v.Confirmed {
			rep.Unconf++
			if len(rep.UnconfMsg) < 5 {
				rep.UnconfMsg = append(rep.UnconfMsg, v.Msg+" | "+v.Where+" | "+showInputs(v.Inputs)+" | "+v.Note)
			}
		}
	}
	rep.Complete = rep.Left == 0 && rep.Budget == 0 && len(rep.Unsup) == 0 && st.Unknown == 0 && vio == nil && rep.Unconf == 0
	rep.top = res.TopSites(12)
	v := e.validate(rs, params, res, rep)
	if vio == nil && v == nil {
		v = e.unfinished(rs, params, res, rep)
	}
	if vio == nil && v != nil {
		vio, rep.Complete = v, false
	}
	rep.Wall = time.Since(t0).Seconds()
	return rep, res, vio
}

var _ = smt.Sat
var _ = runtime.NumCPU
