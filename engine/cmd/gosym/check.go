package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"gosym/exec"
)

// checkMain: gosym check <verif dir> <property> <tier>
func checkMain(args []string) {
	if len(args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym check VERIF_DIR PROPERTY TIER")
		os.Exit(2)
	}
	vdir, id, tier := args[0], args[1], args[2]
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	var specs map[string]checkSpec
	b, err := os.ReadFile(filepath.Join(vdir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &specs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sp, ok := specs[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for "+id)
		os.Exit(2)
	}
	var env envT
	env.setup(filepath.Join(vdir, "harness"))
	if env.err != nil {
		env.close()
		fmt.Fprintln(os.Stderr, "cannot build:", env.err)
		os.Exit(2)
	}
	code := env.check(vdir, id, tier, seed, sp, t0)
	env.close()
	os.Exit(code)
}

func (e *envT) check(vdir, id, tier string, seed int64, sp checkSpec, t0 time.Time) int {
	var reps []*runReport
	funcs := map[string]int64{}
	nfuncs := 0
	var vio *exec.Violation
	var vrep *runReport
	for _, rs := range sp.Runs {
		if rs.Only != "" && rs.Only != tier {
			continue
		}
		params, lim := rs.Quick, rs.TQ
		if tier == "thorough" {
			params, lim = map[string]int{}, rs.TT
			for k, v := range rs.Quick {
				params[k] = v
			}
			for k, v := range rs.Thorough {
				params[k] = v
			}
			if lim == 0 {
				lim = 900
			}
		}
		if lim == 0 {
			lim = 90
		}
		if params == nil {
			params = map[string]int{}
		}
		samples := 6
		if tier == "thorough" {
			samples = 40
		}
		rep, res, v := e.run(rs, params, time.Duration(lim)*time.Second, 8, samples, false, false, seed)
		reps = append(reps, rep)
		for f, n := range res.Funcs {
			if strings.Contains(f, "github.com/openrdap/rdap") {
				funcs[strings.ReplaceAll(f, "github.com/openrdap/rdap", "rdap")] += n
			} else {
				nfuncs++
			}
		}
		st := "complete"
		if !rep.Complete {
			st = "partial"
		}
		fmt.Printf("%s %s: %s, %d paths, %d assertions, %d queries (%.1fs solver), %d paths replayed natively, %.1fs\n", id, rs.H, st, rep.Paths, rep.Asserts, rep.Queries, rep.SolverS, rep.Validated, rep.Wall)
		if v != nil {
			vio, vrep = v, rep
			break
		}
	}
	violations := 0
	if vio != nil {
		violations = 1
	}
	writeEvidence(vdir, id, tier, seed, sp, reps, funcs, nfuncs, violations, time.Since(t0).Seconds())
	if vio == nil {
		return 0
	}
	rd := filepath.Join(vdir, "evidence", "replays")
	os.MkdirAll(rd, 0o755)
	rp := filepath.Join(rd, id+"-"+vrep.Harness+".json")
	b, _ := json.MarshalIndent(map[string]any{
		"property": id, "harness": vrep.Harness, "params": vrep.Params, "inputs": vio.Inputs,
		"failed": vio.Msg, "native": vio.Note, "where": vio.Where, "inputs_text": showInputs(vio.Inputs),
		"how_to_replay": "bash " + filepath.Join(vdir, "check.sh") + " replay " + rp,
	}, "", " ")
	os.WriteFile(rp, b, 0o644)
	fmt.Printf("counterexample: %s\n  inputs: %s\n  %s\n", vio.Msg, showInputs(vio.Inputs), vio.Note)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func writeEvidence(vdir, id, tier string, seed int64, sp checkSpec, reps []*runReport, funcs map[string]int64, nfuncs, violations int, wall float64) {
	var states, val int
	var steps int64
	var q, sat, unsat, unk, asserts int
	var solver float64
	samples := []any{}
	complete := true
	covers := map[string]int{}
	reduced := []string{}
	for _, r := range reps {
		states += r.Paths
		steps += r.Steps
		val += r.Validated
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		asserts += r.Asserts
		solver += r.SolverS
		samples = append(samples, r.SamplesJ...)
		if !r.Complete {
			complete = false
			why := []string{}
			if r.Left > 0 {
				why = append(why, fmt.Sprintf("%d branches unexplored when time ran out", r.Left))
			}
			if r.Budget > 0 {
				why = append(why, fmt.Sprintf("%d paths cut by the step or time budget", r.Budget))
			}
			for k, n := range r.Unsup {
				why = append(why, fmt.Sprintf("%d paths not encodable: %s", n, k))
			}
			if r.Unknown > 0 {
				why = append(why, fmt.Sprintf("%d solver answers unknown", r.Unknown))
			}
			if r.Unconf > 0 {
				why = append(why, fmt.Sprintf("%d candidate violations not reproduced by the real code", r.Unconf))
			}
			reduced = append(reduced, r.Harness+": "+strings.Join(why, "; "))
		}
		for k, n := range r.Covers {
			covers[r.Harness+":"+k] = n
		}
	}
	fl := make([]string, 0, len(funcs))
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
			"states_meaning":            "completed symbolic paths, each standing for every input satisfying its path condition",
			"transitions_meaning":       "SSA instructions executed symbolically",
			"exhaustive":                complete && violations == 0,
			"reduced":                   reduced,
			"assertions_checked":        asserts,
			"solver":                    map[string]any{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "seconds": solver},
			"repo_functions_encoded":    fl,
			"library_functions_encoded": nfuncs,
			"runs":                      reps,
			"reachability_witnesses":    covers,
			"outside_the_claim":         sp.Outside,
		},
		"assumptions": sp.Assume,
	}
	if sp.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(vdir, "evidence", id+".json"), b, 0o644)
}

// replayMain: gosym replay <verif dir> <file>
func replayMain(args []string) {
	b, err := os.ReadFile(args[1])
	var r struct {
		Harness string          `json:"harness"`
		Params  map[string]int  `json:"params"`
		Inputs  []exec.InputVal `json:"inputs"`
	}
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var e envT
	e.dir = filepath.Join(args[0], "harness")
	e.scratch, _ = os.MkdirTemp("", "gosym")
	defer e.close()
	e.bin = filepath.Join(e.scratch, "replay.test")
	if err := buildReplay(e.dir, e.bin, false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v := &exec.Violation{Inputs: r.Inputs}
	ok := e.confirm(r.Harness, r.Params, v)
	fmt.Println(v.Note)
	e.close()
	if ok {
		os.Exit(1)
	}
}
