package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"gosym/exec"
)

type rjob struct {
	Harness string          `json:"harness"`
	Params  map[string]int  `json:"params"`
	Inputs  []exec.InputVal `json:"inputs"`
}

type rresult struct {
	Failed []string `json:"failed"`
	Stop   string   `json:"stop"`
	Panic  string   `json:"panic"`
	Stack  string   `json:"stack"`
	Covers []string `json:"covers"`
	Obs    []string `json:"obs"`
	Pos    int      `json:"pos"`
	Done   bool     `json:"done"`
}

func buildReplay(dir, out string, race bool) error {
	tmp, err := os.MkdirTemp("", "gosym-overlay")
	if err != nil {
		return err
	}
	defer os.RemoveAll(tmp)
	ov, err := overlay(tmp, race)
	if err != nil {
		return err
	}
	args := []string{"test", "-c", "-overlay", ov, "-ldflags=-checklinkname=0", "-o", out}
	if race {
		args = append(args, "-race", "-tags", "schedule")
	}
	c := osexec.Command("go", append(args, "./replay")...)
	c.Dir = dir
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building replay binary: %v\n%s", err, b)
	}
	return nil
}

// overlay makes http.Transport ask a hook of the replay binary.
func overlay(tmp string, race bool) (string, error) {
	root, err := osexec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	f := filepath.Join(strings.TrimSpace(string(root)), "src/net/http/roundtrip.go")
	src, err := os.ReadFile(f)
	if err != nil {
		return "", err
	}
	old := "\treturn t.roundTrip(req)\n"
	if strings.Count(string(src), old) != 1 {
		return "", fmt.Errorf("%s: unexpected contents", f)
	}
	s := strings.Replace(string(src), old, "\tif verifHook != nil {\n\t\treturn verifHook(t, req)\n\t}\n"+old, 1)
	s += "\nvar verifHook func(t *Transport, req *Request) (*Response, error)\n"
	n := filepath.Join(tmp, "roundtrip.go")
	if err := os.WriteFile(n, []byte(s), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{f: n}
	if race {
		if err := overlaySync(tmp, filepath.Join(strings.TrimSpace(string(root)), "src"), rep); err != nil {
			return "", err
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	o := filepath.Join(tmp, "overlay.json")
	return o, os.WriteFile(o, j, 0o644)
}

var syncFunc = regexp.MustCompile(`(?m)^func \(\w+ \*(Map|Mutex|RWMutex|Once|Pool|Bool|Int32|Int64|Uint32|Uint64|Uintptr|Pointer\[T\]|Value)\) (Load|Store|LoadOrStore|LoadAndDelete|Delete|Swap|CompareAndSwap|Add|Lock|Unlock|TryLock|RLock|RUnlock|TryRLock|Do|Get|Put)\([^{\n]*\{`)

// overlaySync makes the synchronisation operations call a hook of the replay binary first.
func overlaySync(tmp, src string, rep map[string]string) error {
	for _, p := range []string{"sync/map.go", "sync/mutex.go", "sync/rwmutex.go", "sync/once.go", "sync/pool.go", "sync/atomic/type.go", "sync/atomic/value.go"} {
		b, err := os.ReadFile(filepath.Join(src, p))
		if err != nil {
			return err
		}
		b = syncFunc.ReplaceAllFunc(b, func(x []byte) []byte { return []byte(string(x) + " verifPoint();") })
		n := filepath.Join(tmp, strings.ReplaceAll(p, "/", "_"))
		if err := os.WriteFile(n, b, 0o644); err != nil {
			return err
		}
		rep[filepath.Join(src, p)] = n
	}
	for _, p := range []string{"sync", "sync/atomic"} {
		n := filepath.Join(tmp, strings.ReplaceAll(p, "/", "_")+"_verif.go")
		s := "package " + filepath.Base(p) + "\n\nvar verifHook func()\n\nfunc verifPoint() {\n\tif h := verifHook; h != nil {\n\t\th()\n\t}\n}\n"
		if err := os.WriteFile(n, []byte(s), 0o644); err != nil {
			return err
		}
		rep[filepath.Join(src, p, "verif_hook.go")] = n
	}
	return nil
}

// confirmSchedule replays a candidate that depends on the schedule, in a
// race-detecting binary: first under its schedule, then unconstrained.
func (e *envT) confirmSchedule(h string, params map[string]int, v *exec.Violation) bool {
	e.once.Lock()
	if e.raceBin == "" && e.raceErr == nil {
		b := filepath.Join(e.scratch, "replay-race")
		if e.raceErr = buildReplay(e.dir, b, true); e.raceErr == nil {
			e.raceBin = b
		}
	}
	e.once.Unlock()
	if e.raceErr != nil {
		v.Note = e.raceErr.Error()
		return false
	}
	for i := 0; i < 24; i++ {
		env := "GOMAXPROCS=4"
		if i >= 4 {
			env = "REPLAY_FREE=1"
		}
		rs, note := e.replayBin(e.raceBin, []rjob{{h, params, v.Inputs}}, 60*time.Second, env, "GORACE=halt_on_error=1")
		switch {
		case strings.Contains(note, "DATA RACE"):
			v.Note = "race detector: " + tail(note[strings.Index(note, "WARNING"):], 1200)
			return true
		case len(rs) > 0 && len(rs[0].Failed) > 0:
			v.Note = "real code fails under this schedule: " + rs[0].Failed[0]
			return true
		case len(rs) > 0 && rs[0].Panic != "" && !strings.Contains(rs[0].Panic, "replay:"):
			v.Note = "real code panics under this schedule: " + rs[0].Panic
			return true
		case strings.Contains(note, "fatal error:"):
			v.Note = "real code crashes: " + note
			return true
		}
		v.Note = "not reproduced natively: " + note
	}
	return false
}

// replay runs jobs natively; results may be fewer than jobs if the process died.
func (e *envT) replay(jobs []rjob, limit time.Duration) ([]rresult, string) {
	return e.replayBin(e.bin, jobs, limit)
}

// replayBin runs jobs in one process, and again those after one that was
// ended on a goroutine of the code under test.
func (e *envT) replayBin(bin string, jobs []rjob, limit time.Duration, env ...string) ([]rresult, string) {
	var all []rresult
	end := time.Now().Add(limit)
	for {
		out, note := e.replayOnce(bin, jobs, time.Until(end), env...)
		all = append(all, out...)
		if !strings.Contains(note, "REPLAY-STOPPED") || len(out) == 0 {
			return all, note
		}
		jobs = jobs[len(out):]
		if len(jobs) == 0 || time.Now().After(end) {
			return all, ""
		}
	}
}

func (e *envT) replayOnce(bin string, jobs []rjob, limit time.Duration, env ...string) ([]rresult, string) {
	e.once.Lock()
	e.seq++
	d := filepath.Join(e.scratch, fmt.Sprintf("r%d", e.seq))
	e.once.Unlock()
	os.MkdirAll(d+"/s", 0o755)
	defer os.RemoveAll(d)
	b, _ := json.Marshal(jobs)
	os.WriteFile(d+"/in.json", b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := osexec.CommandContext(ctx, bin, "-test.run", "^TestReplay$", "-test.timeout", "600s")
	c.Dir = d + "/s"
	c.Env = append(os.Environ(), "REPLAY_IN="+d+"/in.json", "REPLAY_OUT="+d+"/out.json", "REPLAY_SCRATCH="+d+"/s",
		"HOME="+d+"/s/home", "XDG_CACHE_HOME=", "TMPDIR="+d+"/s", "http_proxy=", "https_proxy=", "HTTP_PROXY=", "HTTPS_PROXY=", "NO_PROXY=")
	c.Env = append(c.Env, env...)
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	c.WaitDelay = time.Second
	err := c.Run()
	var out []rresult
	f, ferr := os.Open(d + "/out.json")
	if ferr == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var r rresult
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				out = append(out, r)
			}
		}
		f.Close()
	}
	note := ""
	if err != nil {
		note = err.Error() + ": " + tail(ob.String(), 3000)
		if strings.Contains(ob.String(), "REPLAY-STOPPED") {
			note += " REPLAY-STOPPED"
		}
	}
	return out, note
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n]
	}
	return s
}

// confirm replays a candidate violation against the real code.
func (e *envT) confirm(h string, params map[string]int, v *exec.Violation) bool {
	n := 1
	for _, in := range v.Inputs {
		if in.Kind == "schedule" {
			return e.confirmSchedule(h, params, v)
		}
		if in.Kind == "order" {
			n = 400
		}
	}
	jobs := make([]rjob, n)
	for i := range jobs {
		jobs[i] = rjob{h, params, v.Inputs}
	}
	rs, note := e.replay(jobs, 120*time.Second)
	for _, r := range rs {
		if len(r.Failed) > 0 {
			v.Note = "real code fails: " + r.Failed[0]
			return true
		}
		if r.Panic != "" && !strings.Contains(r.Panic, "replay:") {
			v.Note = "real code panics: " + r.Panic
			return true
		}
	}
	if len(rs) < n && (strings.Contains(note, "fatal error:") || strings.Contains(note, "panic:")) && !strings.Contains(note, "test timed out") &&
		!strings.Contains(note, "blocked goroutines remain") {
		v.Note = "real code crashes: " + note
		return true
	}
	if len(rs) > 0 {
		v.Note = fmt.Sprintf("not reproduced natively (stop=%q done=%v pos=%d/%d) %s", rs[0].Stop, rs[0].Done, rs[0].Pos, len(v.Inputs), note)
	} else {
		v.Note = "no native result: " + note
	}
	return false
}

// validate replays sampled path models natively and compares what was observed.
func (e *envT) validate(rs runSpec, params map[string]int, res *exec.Result, rep *runReport) *exec.Violation {
	var jobs []rjob
	var vio *exec.Violation
	for _, s := range res.Samples {
		jobs = append(jobs, rjob{rs.H, params, s.Inputs})
	}
	if len(jobs) == 0 {
		return nil
	}
	out, note := e.replay(jobs, 120*time.Second)
	for i, s := range res.Samples {
		if i >= len(out) {
			rep.Disagree++
			if len(rep.DisNotes) < 3 {
				rep.DisNotes = append(rep.DisNotes, "native run died: "+note+" inputs "+showInputs(s.Inputs))
			}
			break
		}
		r := out[i]
		if len(r.Failed) > 0 && vio == nil {
			// The encoding missed something, but the real code breaks the property.
			v := &exec.Violation{Msg: r.Failed[0], Inputs: s.Inputs, Where: "native run of a solver model"}
			if e.confirm(rs.H, params, v) {
				vio = v
			}
		}
		ordered := false
		for _, in := range s.Inputs {
			if in.Kind == "order" {
				ordered = true
			}
		}
		same := r.Done && len(r.Obs) == len(s.Obs)
		if same && !ordered {
			for k := range s.Obs {
				if s.Obs[k] != r.Obs[k] {
					same = false
				}
			}
		}
		if same {
			rep.Validated++
			if len(rep.SamplesJ) < 3 {
				rep.SamplesJ = append(rep.SamplesJ, map[string]any{"harness": rs.H, "inputs": showInputs(s.Inputs), "observed": s.Obs})
			}
		} else {
			rep.Disagree++
			if len(rep.DisNotes) < 3 {
				rep.DisNotes = append(rep.DisNotes, fmt.Sprintf("inputs %s: engine %v, native %v (stop %q panic %q)", showInputs(s.Inputs), s.Obs, r.Obs, r.Stop, r.Panic))
			}
		}
	}
	return vio
}

// unfinished runs the real code on models of paths the encoding could not
// follow to their end (code it does not cover, or no end within the step
// budget). A failed assertion there is a counterexample like any other.
func (e *envT) unfinished(rs runSpec, params map[string]int, res *exec.Result, rep *runReport) *exec.Violation {
	var jobs []rjob
	for _, in := range res.UnfinIn {
		sched := false
		for _, x := range in {
			sched = sched || x.Kind == "schedule"
		}
		if !sched {
			jobs = append(jobs, rjob{rs.H, params, in})
		}
	}
	if len(jobs) == 0 {
		return nil
	}
	out, note := e.replay(jobs, 40*time.Second)
	rep.UnfinRun = len(out)
	for i, r := range out {
		if len(r.Failed) == 0 && (r.Panic == "" || strings.Contains(r.Panic, "replay:")) {
			continue
		}
		v := &exec.Violation{Msg: r.Panic, Inputs: jobs[i].Inputs, Where: "native run of a path that is not encodable"}
		if len(r.Failed) > 0 {
			v.Msg = r.Failed[0]
		}
		if e.confirm(rs.H, params, v) {
			return v
		}
	}
	if len(out) < len(jobs) && note != "" {
		v := &exec.Violation{Msg: "no result", Inputs: jobs[len(out)].Inputs, Where: "native run of a path that is not encodable"}
		if !strings.HasPrefix(note, "signal: killed") {
			if e.confirm(rs.H, params, v) {
				return v
			}
		} else if one, note := e.replay(jobs[len(out):len(out)+1], 30*time.Second); len(one) == 0 && strings.HasPrefix(note, "signal: killed") {
			v.Msg, v.Note = "does not finish", "real code does not finish within 30 s"
			return v
		}
	}
	return nil
}
