package exec

import "gosym/smt"

// decText formats a symbolic unsigned 64-bit integer in base 10: it forks on
// the number of digits; the digits stay symbolic.
func (m *M) decText(t *smt.Term) []Value {
	c := m.c
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if m.decide(c.Ult(t, c.BV(p, 64))) {
			break
		}
		nd++
		if nd < 20 {
			p *= 10
		}
	}
	w := smt.Sort(64)
	switch {
	case nd <= 2:
		w = 8
	case nd <= 4:
		w = 16
	case nd <= 9:
		w = 32
	}
	x := t
	if w < 64 {
		x = c.Extract(t, int(w)-1, 0)
	}
	out := make([]Value, nd)
	div := uint64(1)
	for k := nd - 1; k >= 0; k-- {
		q := x
		if div > 1 {
			q = c.Udiv(x, c.BV(div, w))
		}
		if k > 0 {
			q = c.Urem(q, c.BV(10, w))
		}
		if w > 8 {
			q = c.Extract(q, 7, 0)
		}
		out[k] = termV(c.Add(q, c.BV('0', 8)))
		div *= 10
	}
	return out
}

func init() {
	reg("internal/strconv.FormatUint", func(m *M, a []Value) Value {
		t := a[0].term()
		if t == nil || m.conc(a[1]) != 10 {
			return m.orig()
		}
		return strOfBytes(m.decText(t))
	})
	reg("internal/strconv.FormatInt", func(m *M, a []Value) Value {
		t := a[0].term()
		if t == nil || m.conc(a[1]) != 10 {
			return m.orig()
		}
		if m.decide(m.c.Slt(t, m.c.BV(0, 64))) {
			return strOfBytes(append([]Value{{N: '-'}}, m.decText(m.c.Neg(t))...))
		}
		return strOfBytes(m.decText(t))
	})
	reg("internal/strconv.Itoa", func(m *M, a []Value) Value {
		t := a[0].term()
		if t == nil {
			return m.orig()
		}
		if m.decide(m.c.Slt(t, m.c.BV(0, 64))) {
			return strOfBytes(append([]Value{{N: '-'}}, m.decText(m.c.Neg(t))...))
		}
		return strOfBytes(m.decText(t))
	})
	reg("internal/strconv.small", func(m *M, a []Value) Value {
		t := a[0].term()
		if t == nil {
			return m.orig()
		}
		return strOfBytes(m.decText(t))
	})
}
