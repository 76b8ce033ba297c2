package replay

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/h"
	"verifharness/sym"
)

type job struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []sym.Input    `json:"inputs"`
}

type result struct {
	Failed []string `json:"failed"`
	Stop   string   `json:"stop"`
	Panic  string   `json:"panic"`
	Stack  string   `json:"stack,omitempty"`
	Covers []string `json:"covers"`
	Obs    []string `json:"obs"`
	Pos    int      `json:"pos"`
	Done   bool     `json:"done"`
}

func run(sp h.Spec, j job, scratch string) (r result) {
	st := &sym.State{Inputs: j.Inputs, Params: j.Params, Scratch: scratch}
	sym.S = st
	home := goid()
	sym.Foreign = func(why string) {
		if goid() == home || sym.Scheduled {
			return
		}
		r := result{Stop: why, Failed: st.Failed, Covers: st.Covers, Obs: st.Obs, Pos: st.Pos}
		lb, _ := json.Marshal(r)
		outFile.Write(append(lb, '\n'))
		fmt.Println("REPLAY-STOPPED on another goroutine")
		os.Exit(3)
	}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(sym.Stop); ok {
				r.Stop = s.Why
			} else {
				r.Panic = fmt.Sprint(x)
				r.Stack = string(debug.Stack())
			}
		} else {
			r.Done = true
		}
		r.Failed, r.Covers, r.Obs, r.Pos = sym.S.Failed, sym.S.Covers, sym.S.Obs, sym.S.Pos
	}()
	sp.F()
	return
}

var outFile *os.File

// goid is the running goroutine's number.
func goid() string {
	b := make([]byte, 64)
	f := strings.Fields(string(b[:runtime.Stack(b, false)]))
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

func TestReplay(t *testing.T) {
	in := os.Getenv("REPLAY_IN")
	if in == "" {
		t.Skip("no REPLAY_IN")
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		t.Fatal(err)
	}
	base := os.Getenv("REPLAY_SCRATCH")
	if base == "" {
		t.Fatal("no REPLAY_SCRATCH")
	}
	out, err := os.Create(os.Getenv("REPLAY_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	outFile = out
	setLogger(hooks{})
	for i, j := range jobs {
		sp, ok := h.All[j.Harness]
		if !ok {
			t.Fatal("unknown harness " + j.Harness)
		}
		sc := filepath.Join(base, fmt.Sprintf("j%d", i))
		os.MkdirAll(sc, 0o755)
		os.Setenv("HOME", sc+"/home")
		os.Setenv("XDG_CACHE_HOME", "")
		var r result
		sym.HookReset()
		bubble = sp.Clock
		if sp.Clock {
			sym.Wait = synctest.Wait
			synctest.Test(t, func(t *testing.T) { r = run(sp, j, sc) })
			sym.Wait = func() {}
		} else {
			r = run(sp, j, sc)
		}
		bubble = false
		if strings.HasPrefix(sc, base+"/") {
			os.RemoveAll(sc)
		}
		lb, _ := json.Marshal(r)
		out.Write(append(lb, '\n'))
	}
}

var _ = time.Now
