// Package model holds Go models of environment functions; the engine
// substitutes them for the originals. Native runs never use them.
package model

import (
	"encoding/json"
	"io"
	"time"

	"verifharness/sym"
)

// Clock is the symbolic clock in whole seconds (an intrinsic of the engine).
func Clock() time.Time { panic("intrinsic") }

// nanos is the part of the clock below a second.
var nanos int64

// Now models time.Now.
func Now() time.Time {
	if nanos == 0 {
		return Clock()
	}
	return Clock().Add(time.Duration(nanos))
}

// AdvanceMs models sym.AdvanceMs.
func AdvanceMs(n int64) {
	nanos += n * 1e6
	s := nanos / 1e9
	nanos -= s * 1e9
	sym.AdvanceSec(s)
}

func Since(t time.Time) time.Duration { return time.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(time.Now()) }

// DecodeFrom models (*json.Decoder).Decode for one document per reader: the
// first value is decoded and what follows it is ignored.
func DecodeFrom(r io.Reader, v any) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	i := 0
	for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
		i++
	}
	if i == len(b) {
		return io.EOF
	}
	if b[i] == 1 {
		for j := i; j < len(b); j++ {
			if b[j] == 2 {
				return json.Unmarshal(b[i:j+1], v)
			}
		}
	}
	if b[i] == '{' || b[i] == '[' || b[i] == '"' {
		depth, instr := 0, false
		for j := i; j < len(b); j++ {
			switch {
			case instr && b[j] == '\\':
				j++
			case b[j] == '"':
				instr = !instr
			case instr:
			case b[j] == '{' || b[j] == '[':
				depth++
			case b[j] == '}' || b[j] == ']':
				depth--
			}
			if depth == 0 && !instr {
				return json.Unmarshal(b[:j+1], v)
			}
		}
		if err := json.Unmarshal(b, v); err != nil {
			return err
		}
	}
	return json.Unmarshal(b, v)
}
