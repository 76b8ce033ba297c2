package sym

import (
	"bytes"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Scheduled is set when synchronisation operations call SyncPoint.
var Scheduled bool

// The scheduling state is read and written without synchronisation, which
// would order the goroutines for the race detector.
var (
	schedOn, schedGo, schedDone bool
	schedAt, schedOps           int
	schedG                      string
)

//go:norace
func schedWait(p *bool, d time.Duration) {
	for i := 0; !*p && i < int(d/time.Millisecond); i++ {
		time.Sleep(time.Millisecond)
	}
}

//go:norace
func schedSet(p *bool) { *p = true }

//go:norace
func schedInit(on bool, at int) {
	schedOn, schedGo, schedDone, schedAt, schedOps, schedG = on, false, false, at, 0, ""
}

func goid() string {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	if i := bytes.Index(s, []byte(" [")); i > 0 {
		s = s[:i]
	}
	return string(s)
}

//go:norace
func schedMe() { schedG = goid() }

// SyncPoint lets the second goroutine run at the scheduled operation of the first.
//
//go:norace
func SyncPoint() {
	if !schedOn || schedGo || goid() != schedG {
		return
	}
	var pcs [8]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "sync.") || strings.HasPrefix(f.Function, "sync/atomic.") {
			if !more {
				return
			}
			continue
		}
		if !strings.HasPrefix(f.Function, "github.com/openrdap/rdap") {
			return
		}
		break
	}
	if schedOps == schedAt {
		schedGo = true
		schedWait(&schedDone, 3*time.Second)
	}
	schedOps++
}

// concurrent is Concurrent in a native run.
func concurrent(a, b func(), at int) {
	var wg sync.WaitGroup
	start := make(chan bool)
	var bad [2]any
	schedInit(Scheduled, at)
	for i, f := range []func(){a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				bad[i] = recover()
				if i == 0 {
					schedSet(&schedGo)
				} else {
					schedSet(&schedDone)
				}
			}()
			<-start
			if Scheduled {
				if i == 0 {
					schedMe()
				} else {
					schedWait(&schedGo, 10*time.Second)
				}
			}
			f()
		}()
	}
	close(start)
	wg.Wait()
	schedInit(false, 0)
	for _, x := range bad {
		if x != nil {
			panic(x)
		}
	}
}
