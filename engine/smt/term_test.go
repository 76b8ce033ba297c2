package smt

import (
	"math/rand"
	"testing"
)

// Simplified terms have the value of the operation they stand for.
func TestSimplify(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewCtx()
		w := []Sort{8, 16, 32, 64}[r.Intn(4)]
		m := Model{}
		type tv struct {
			t *Term
			v uint64
		}
		var ts []tv
		for i := 0; i < 3; i++ {
			v := c.Var("v"+string(rune('0'+i)), w)
			x := r.Uint64() & mask(w)
			if r.Intn(2) == 0 {
				x &= 0xff
			}
			m[v.Name] = x
			ts = append(ts, tv{v, x})
			if w > 8 {
				b := c.Var("b"+string(rune('0'+i)), 8)
				y := r.Uint64() & 0xff
				m[b.Name] = y
				ts = append(ts, tv{c.Zext(b, w), y}, tv{c.Sext(b, w), uint64(sx(y, 8)) & mask(w)})
			}
		}
		ks := []uint64{0, 1, 2, 3, 10, 60, 100, 1000, 1000000000, mask(w), 1 << (w - 1), 30, 500, 2500}
		for i := 0; i < 40; i++ {
			a, b := ts[r.Intn(len(ts))], ts[r.Intn(len(ts))]
			k := ks[r.Intn(len(ks))] & mask(w)
			if r.Intn(2) == 0 {
				b = tv{c.BV(k, w), k}
			}
			var n tv
			switch r.Intn(14) {
			case 0:
				n = tv{c.Add(a.t, b.t), a.v + b.v}
			case 1:
				n = tv{c.Sub(a.t, b.t), a.v - b.v}
			case 2:
				n = tv{c.Mul(a.t, b.t), a.v * b.v}
			case 3:
				n = tv{c.Neg(a.t), -a.v}
			case 4, 5, 6, 7:
				if b.v == 0 {
					continue
				}
				sa, sb := sx(a.v, w), sx(b.v, w)
				op := r.Intn(4)
				if op >= 2 && sb == -1 {
					continue
				}
				switch op {
				case 0:
					n = tv{c.Udiv(a.t, b.t), a.v / b.v}
				case 1:
					n = tv{c.Urem(a.t, b.t), a.v % b.v}
				case 2:
					n = tv{c.Sdiv(a.t, b.t), uint64(sa / sb)}
				case 3:
					n = tv{c.Srem(a.t, b.t), uint64(sa % sb)}
				}
			case 8:
				n = tv{c.BvAnd(a.t, b.t), a.v & b.v}
			case 9:
				n = tv{c.BvOr(a.t, b.t), a.v | b.v}
			case 10:
				n = tv{c.BvXor(a.t, b.t), a.v ^ b.v}
			case 11:
				g := c.Ult(a.t, b.t)
				if (Eval(g, m) != 0) != (a.v < b.v) {
					t.Fatal(seed, "ult")
				}
				n = tv{c.Ite(g, a.t, b.t), min(a.v, b.v)}
			case 12:
				g := c.Slt(a.t, b.t)
				if (Eval(g, m) != 0) != (sx(a.v, w) < sx(b.v, w)) {
					t.Fatal(seed, "slt")
				}
				if (Eval(c.Sle(a.t, b.t), m) != 0) != (sx(a.v, w) <= sx(b.v, w)) || (Eval(c.Ule(a.t, b.t), m) != 0) != (a.v <= b.v) {
					t.Fatal(seed, "le")
				}
				continue
			case 13:
				if (Eval(c.Eq(a.t, b.t), m) != 0) != (a.v == b.v) {
					t.Fatal(seed, "eq")
				}
				s := r.Intn(int(w))
				n = tv{c.Lshr(a.t, c.BV(uint64(s), w)), a.v >> s}
			}
			n.v &= mask(w)
			if got := Eval(n.t, m) & mask(w); got != n.v {
				t.Fatalf("seed %d: got %x want %x", seed, got, n.v)
			}
			if lo, hi, ok := srange(n.t, 8); ok && (sx(n.v, w) < lo || sx(n.v, w) > hi) {
				t.Fatalf("seed %d: %d outside %d..%d", seed, sx(n.v, w), lo, hi)
			}
			ts = append(ts, n)
		}
	}
}
