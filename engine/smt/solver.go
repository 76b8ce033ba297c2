package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats counts the work of a solver.
type Stats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Max                          time.Duration
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Time += o.Time
	s.Max = max(s.Max, o.Max)
}

// Solver drives one incremental solver process.
type Solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
	stack  []*Term
	epoch  int
	Vars   []*Term
	Stats  Stats
	Argv   []string
	Err    error
	failed int
}

var epochCounter = 0

// Start starts the solver. argv is e.g. {"z3", "-in"}.
func Start(argv []string, timeoutMS int, epoch int) (*Solver, error) {
	s := &Solver{Argv: argv, epoch: epoch}
	s.cmd = exec.Command(argv[0], argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", timeoutMS)
	}
	io.WriteString(s.in, "(set-logic ALL)\n")
	return s, nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) Epoch() int { return s.epoch }

func sortName(w Sort) string {
	switch w {
	case Bool:
		return "Bool"
	case FP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch t.Sort {
	case Bool:
		if t.Val != 0 {
			return "true"
		}
		return "false"
	case FP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.Val)
	}
	if t.Sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.Sort)/4, t.Val)
	}
	return fmt.Sprintf("#b%0*b", int(t.Sort), t.Val)
}

func ref(t *Term) string {
	switch t.Op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return t.Name
	}
	return "t" + strconv.Itoa(t.id)
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpBvAdd: "bvadd", OpBvSub: "bvsub", OpBvMul: "bvmul", OpBvUdiv: "bvudiv", OpBvUrem: "bvurem",
	OpBvSdiv: "bvsdiv", OpBvSrem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpBvNot: "bvnot", OpBvNeg: "bvneg", OpBvShl: "bvshl", OpBvLshr: "bvlshr", OpBvAshr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg",
	OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFIsNaN: "fp.isNaN",
	OpFFromBits: "(_ to_fp 11 53)", OpFFromS: "(_ to_fp 11 53) RNE", OpFFromU: "(_ to_fp_unsigned 11 53) RNE",
	OpFToS: "(_ fp.to_sbv 64) RTZ", OpFToU: "(_ fp.to_ubv 64) RTZ", OpFTrunc: "fp.roundToIntegral RTZ",
}

func body(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.Op {
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.A, t.B)
	case OpZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", int(t.Sort)-int(t.Args[0].Sort))
	case OpSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", int(t.Sort)-int(t.Args[0].Sort))
	default:
		sb.WriteString(opNames[t.Op])
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (s *Solver) emitTerm(t *Term, w io.Writer) {
	if t.emit == s.epoch || t.Op == OpConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emit == s.epoch || f.t.Op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if a.emit != s.epoch && a.Op != OpConst {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		x.emit = s.epoch
		if x.Op == OpVar {
			s.Vars = append(s.Vars, x)
			fmt.Fprintf(w, "(declare-const %s %s)\n", x.Name, sortName(x.Sort))
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, sortName(x.Sort), body(x))
		}
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.emitTerm(t, s.in)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra. On Sat and wantModel it returns a model of vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, wantModel bool) (Result, Model) {
	if s.Err != nil {
		return Unknown, nil
	}
	start := time.Now()
	s.sync(pc)
	if extra != nil {
		s.emitTerm(extra, s.in)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(extra))
	}
	for _, v := range vars {
		s.emitTerm(v, s.in)
	}
	io.WriteString(s.in, "(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(start) > 5*time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(Script(pc, extra)), 0o644)
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	if strings.HasPrefix(line, "(error") {
		s.Err = fmt.Errorf("solver: %s", line)
	}
	var m Model
	if res == Sat && wantModel {
		m = Model{}
		if len(vars) > 0 {
			io.WriteString(s.in, "(get-value (")
			for _, v := range vars {
				s.in.WriteString(v.Name)
				s.in.WriteByte(' ')
			}
			io.WriteString(s.in, "))\n")
			s.in.Flush()
			txt := s.readSexp()
			if err := parseValues(txt, m); err != nil {
				s.Err = err
				res = Unknown
			}
		}
	}
	if extra != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	d := time.Since(start)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.Max {
		s.Stats.Max = d
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Err = fmt.Errorf("solver died: %v", err)
			return ""
		}
		if l = strings.TrimSpace(l); l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.Err = fmt.Errorf("solver died: %v", err)
			return ""
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

// parseValues reads ((name value) ...).
func parseValues(txt string, m Model) error {
	toks := tokenize(txt)
	if len(toks) > 1 && toks[1] == "error" {
		return fmt.Errorf("solver: %s", txt)
	}
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		i += 2
		// value sexp
		start := i
		d := 0
		for {
			if toks[i] == "(" {
				d++
			} else if toks[i] == ")" {
				d--
			}
			i++
			if d == 0 {
				break
			}
		}
		v, err := parseVal(toks[start:i])
		if err != nil {
			return fmt.Errorf("%v in %s", err, txt)
		}
		m[name] = v
		i++ // ')'
	}
	return nil
}

func parseBits(t string) (uint64, int, error) {
	if strings.HasPrefix(t, "#x") {
		v, err := strconv.ParseUint(t[2:], 16, 64)
		return v, 4 * len(t[2:]), err
	}
	if strings.HasPrefix(t, "#b") {
		v, err := strconv.ParseUint(t[2:], 2, 64)
		return v, len(t[2:]), err
	}
	return 0, 0, fmt.Errorf("bad bits %q", t)
}

func parseVal(t []string) (uint64, error) {
	if len(t) == 1 {
		switch t[0] {
		case "true":
			return 1, nil
		case "false":
			return 0, nil
		}
		v, _, err := parseBits(t[0])
		return v, err
	}
	if len(t) >= 5 && t[1] == "fp" {
		sg, _, e1 := parseBits(t[2])
		ex, _, e2 := parseBits(t[3])
		mn, _, e3 := parseBits(t[4])
		if e1 != nil || e2 != nil || e3 != nil {
			return 0, fmt.Errorf("bad fp")
		}
		return sg<<63 | ex<<52 | mn, nil
	}
	if len(t) >= 4 && t[1] == "_" {
		switch t[2] {
		case "+zero":
			return 0, nil
		case "-zero":
			return 1 << 63, nil
		case "+oo":
			return 0x7ff0000000000000, nil
		case "-oo":
			return 0xfff0000000000000, nil
		case "NaN":
			return 0x7ff8000000000000, nil
		}
		if strings.HasPrefix(t[2], "bv") {
			return strconv.ParseUint(t[2][2:], 10, 64)
		}
	}
	return 0, fmt.Errorf("bad value %v", t)
}

func tokenize(s string) []string {
	var out []string
	cur := -1
	flush := func(i int) {
		if cur >= 0 {
			out = append(out, s[cur:i])
			cur = -1
		}
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', ')':
			flush(i)
			out = append(out, s[i:i+1])
		case ' ', '\n', '\t', '\r':
			flush(i)
		default:
			if cur < 0 {
				cur = i
			}
		}
	}
	flush(len(s))
	return out
}

// Script renders a standalone query for pc ∧ extra (for cross-checking with another solver).
func Script(pc []*Term, extra *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if seen[t] || t.Op == OpConst {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			emit(a)
		}
		if t.Op == OpVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.Name, sortName(t.Sort))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.Sort), body(t))
		}
	}
	for _, t := range append(append([]*Term{}, pc...), extra) {
		if t == nil {
			continue
		}
		emit(t)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}
