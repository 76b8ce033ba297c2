// Package sym is the harness API. Executed natively it replays a recorded
// input vector; the symbolic engine intercepts every exported function.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Input is one recorded nondeterministic value.
type Input struct {
	Kind string `json:"kind"`
	Name string `json:"name,omitempty"`
	Val  uint64 `json:"val"`
}

// State is the native replay state.
type State struct {
	Inputs  []Input
	Pos     int
	Params  map[string]int
	Failed  []string
	Covers  []string
	Obs     []string
	Scratch string
}

// S is the current native replay.
var S = &State{}

// Stop ends a replay early.
type Stop struct{ Why string }

// Foreign, set by the replay, reports whether the caller runs on a goroutine
// that the code under test started, and ends the run there: a panic would
// look like a crash of that code.
var Foreign func(why string)

func stop(s Stop) {
	if Foreign != nil {
		Foreign(s.Why)
	}
	panic(s)
}

func next(kind, name string) uint64 {
	for S.Pos < len(S.Inputs) && S.Inputs[S.Pos].Kind == "order" {
		S.Pos++
	}
	if S.Pos >= len(S.Inputs) {
		// inputs drawn after the recorded failure: any value will do
		S.Pos++
		return 0
	}
	in := S.Inputs[S.Pos]
	S.Pos++
	if in.Kind != kind || in.Name != name {
		stop(Stop{fmt.Sprintf("input mismatch: want %s %s, have %s %s", kind, name, in.Kind, in.Name)})
	}
	return in.Val
}

// Byte draws an arbitrary byte.
func Byte(name string) byte { return byte(next("byte", name)) }

// Bool draws an arbitrary bool.
func Bool(name string) bool { return next("bool", name) != 0 }

// U16 draws an arbitrary uint16.
func U16(name string) uint16 { return uint16(next("u16", name)) }

// U32 draws an arbitrary uint32.
func U32(name string) uint32 { return uint32(next("u32", name)) }

// U64 draws an arbitrary uint64.
func U64(name string) uint64 { return next("u64", name) }

// Float draws an arbitrary float64 (any bit pattern).
func Float(name string) float64 { return math.Float64frombits(next("float", name)) }

// Choice forks over 0..n-1.
func Choice(name string, n int) int {
	v := int(next("choice", name))
	if v >= n {
		stop(Stop{"choice out of range"})
	}
	return v
}

// In draws a byte from a constant set.
func In(name, set string) byte {
	v := byte(next("byte", name))
	if S.Pos > len(S.Inputs) && set != "" {
		return set[0]
	}
	if strings.IndexByte(set, v) < 0 {
		stop(Stop{"In: value outside set"})
	}
	return v
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		stop(Stop{"assumption"})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		S.Failed = append(S.Failed, msg)
		stop(Stop{"assert: " + msg})
	}
}

// Cover marks a reachable point.
func Cover(label string) { S.Covers = append(S.Covers, label) }

// Observe records a value, compared between the encoding and the real run.
func Observe(label string, v any) { S.Obs = append(S.Obs, label+"="+Render(v)) }

// Param returns a bound.
func Param(name string, def int) int {
	if v, ok := S.Params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// Fork forks on b and returns it.
func Fork(b bool) bool { return b }

// Ite8 selects without forking.
func Ite8(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// IteInt selects without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// And is a conjunction without forking.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

// Or is a disjunction without forking.
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

// AdvanceSec moves the clock (natively: sleeps in a synctest bubble).
func AdvanceSec(n int64) {
	SyncFS()
	time.Sleep(time.Duration(n) * time.Second)
	Wait()
}

// AdvanceMs moves the clock by a number of milliseconds, which must be concrete.
func AdvanceMs(n int64) {
	SyncFS()
	time.Sleep(time.Duration(n) * time.Millisecond)
	Wait()
}

// ---- JSON documents ----

// Node kinds.
const (
	Null = iota
	Boolean
	Number
	String
	Array
	Object
)

// Node is a JSON value. The engine depends on this field order.
type Node struct {
	Kind int
	B    bool
	F    float64
	S    string
	A    []*Node
	K    []string
}

// N, T, Str... build nodes.
func Nul() *Node           { return &Node{} }
func Bln(b bool) *Node     { return &Node{Kind: Boolean, B: b} }
func Num(f float64) *Node  { return &Node{Kind: Number, F: f} }
func Str(s string) *Node   { return &Node{Kind: String, S: s} }
func Arr(a ...*Node) *Node { return &Node{Kind: Array, A: a} }
func Obj() *Node           { return &Node{Kind: Object} }
func Strs(s ...string) *Node {
	n := &Node{Kind: Array}
	for _, x := range s {
		n.A = append(n.A, Str(x))
	}
	return n
}

// Set appends a member to an object.
func (n *Node) Set(k string, v *Node) *Node {
	n.K = append(n.K, k)
	n.A = append(n.A, v)
	return n
}

// JSON encodes a document.
func JSON(n *Node) []byte {
	var sb strings.Builder
	enc(&sb, n)
	return []byte(sb.String())
}

func quote(sb *strings.Builder, s string) {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	sb.Write(b)
}

func enc(sb *strings.Builder, n *Node) {
	if n == nil {
		sb.WriteString("null")
		return
	}
	switch n.Kind {
	case Null:
		sb.WriteString("null")
	case Boolean:
		sb.WriteString(strconv.FormatBool(n.B))
	case Number:
		if math.IsNaN(n.F) || math.IsInf(n.F, 0) {
			stop(Stop{"number not representable in JSON"})
		}
		sb.WriteString(strconv.FormatFloat(n.F, 'g', -1, 64))
	case String:
		quote(sb, n.S)
	case Array:
		sb.WriteByte('[')
		for i, e := range n.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			enc(sb, e)
		}
		sb.WriteByte(']')
	case Object:
		sb.WriteByte('{')
		for i, e := range n.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			quote(sb, n.K[i])
			sb.WriteByte(':')
			enc(sb, e)
		}
		sb.WriteByte('}')
	}
}

// Render formats an observation; the engine has the same routine.
func Render(v any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint8:
		return strconv.FormatUint(uint64(x), 10)
	case uint16:
		return strconv.FormatUint(uint64(x), 10)
	case uint32:
		return strconv.FormatUint(uint64(x), 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []byte:
		return strconv.Quote(string(x))
	case []string:
		var ss []string
		for _, e := range x {
			ss = append(ss, strconv.Quote(e))
		}
		return "[" + strings.Join(ss, " ") + "]"
	}
	return "?"
}

// ---- environment ----

// Dir returns a private scratch directory (model: "/scratch").
func Dir() string { return S.Scratch }

// Files written during a bubble get the real time from the kernel; SyncFile
// moves it onto the bubble's clock.
func SyncFile(p string) {
	if !strings.HasPrefix(p, S.Scratch) {
		return
	}
	var st syscall.Stat_t
	if syscall.Stat(p, &st) == nil && st.Mtim.Sec > 1420070400 {
		n := time.Now().UnixNano()
		ts := []syscall.Timespec{syscall.NsecToTimespec(n), syscall.NsecToTimespec(n)}
		syscall.UtimesNano(p, ts)
	}
}

// SyncFS applies SyncFile to every file in the scratch directory.
func SyncFS() {
	var walk func(d string)
	walk = func(d string) {
		f, err := os.Open(d)
		if err != nil {
			return
		}
		names, _ := f.Readdirnames(-1)
		f.Close()
		for _, n := range names {
			p := d + "/" + n
			SyncFile(p)
			walk(p)
		}
	}
	hookMu.Lock()
	on := hookOn
	hookOn = false
	hookMu.Unlock()
	walk(S.Scratch)
	hookMu.Lock()
	hookOn = on
	hookMu.Unlock()
}

// ---- goroutines ----

// Concurrent runs a and b as two goroutines and waits for both.
func Concurrent(a, b func()) {
	if !Symbolic() {
		concurrent(a, b, int(next("schedule", "")))
		return
	}
	raceBegin(b)
	a()
	if !raceRan() {
		raceRival(b)
	}
	raceEnd()
}

// raceRival runs the second goroutine at this point of the first.
func raceRival(b func()) {
	raceThread(1)
	b()
	raceThread(0)
}

// raceOnce runs the function of a sync.Once that is held as a lock.
func raceOnce(o *sync.Once, f func()) {
	defer raceOnceDone(o)
	f()
}

func raceBegin(b func())        {}
func raceEnd()                  {}
func raceRan() bool             { return false }
func raceThread(t int)          {}
func raceOnceDone(o *sync.Once) {}

// Shared says that both goroutines can reach v.
func Shared(v any) {}
