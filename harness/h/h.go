// Package h holds the property harnesses. Each exported function Cxx_name is
// an entry point for the symbolic engine and for native replay.
package h

import (
	"net/url"

	"verifharness/sym"
)

// Spec describes one harness.
type Spec struct {
	F     func()
	Clock bool // uses the clock: replayed in a synctest bubble
}

// All lists every harness by name.
var All = map[string]Spec{}

// text draws a string of exactly n arbitrary ASCII bytes.
func text(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(name)
		sym.Assume(b[i] < 0x80)
	}
	return string(b)
}

// textIn draws a string of exactly n bytes from a set.
func textIn(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.In(name, set)
	}
	return string(b)
}

// upTo draws a length 0..max by forking.
func upTo(name string, max int) int { return sym.Choice(name, max+1) }

func urlStrs(us []*url.URL) []string {
	var out []string
	for _, u := range us {
		out = append(out, u.String())
	}
	return out
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = sym.Ite8(sym.And(b[i] >= 'A', b[i] <= 'Z'), b[i]+32, b[i])
	}
	return string(b)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
