// Package smt holds hash-consed SMT terms (booleans, bit-vectors, IEEE doubles)
// with light simplification, and a driver for an incremental solver process.
package smt

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpBvAdd
	OpBvSub
	OpBvMul
	OpBvUdiv
	OpBvUrem
	OpBvSdiv
	OpBvSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpBvNeg
	OpBvShl
	OpBvLshr
	OpBvAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // hi=A, lo=B
	OpZext
	OpSext
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFEq
	OpFLt
	OpFLe
	OpFIsNaN
	OpFFromBits // bv64 -> fp
	OpFFromS    // signed bv -> fp
	OpFFromU    // unsigned bv -> fp
	OpFToS      // fp -> bv64 signed (defined only in range)
	OpFToU      // fp -> bv64 unsigned (defined only in range)
	OpFTrunc    // round to integral toward zero
)

// Sort: 0 = Bool, 1..64 = bit-vector width, FP = 255.
type Sort uint8

const (
	Bool Sort = 0
	FP   Sort = 255
)

type Term struct {
	Op   Op
	Sort Sort
	A, B int // extract bounds
	Args []*Term
	Val  uint64 // constants (bits for FP)
	Name string
	id   int
	emit int // solver epoch in which it was emitted
	neg  *Term
	// vars cache
	single *Term // if the term depends on exactly one variable
	multi  bool
}

func (t *Term) ID() int       { return t.id }
func (t *Term) IsConst() bool { return t.Op == OpConst }

type key struct {
	op      Op
	sort    Sort
	a, b    int
	val     uint64
	name    string
	x, y, z int
}

// Ctx is a term factory. Not safe for concurrent use.
type Ctx struct {
	tab   map[key]*Term
	ntab  map[string]*Term
	n     int
	True  *Term
	False *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, ntab: map[string]*Term{}}
	c.True = c.mk(&Term{Op: OpConst, Sort: Bool, Val: 1})
	c.False = c.mk(&Term{Op: OpConst, Sort: Bool, Val: 0})
	return c
}

func (c *Ctx) Size() int { return c.n }

func (c *Ctx) mk(t *Term) *Term {
	if len(t.Args) <= 3 {
		k := key{op: t.Op, sort: t.Sort, a: t.A, b: t.B, val: t.Val, name: t.Name, x: -1, y: -1, z: -1}
		switch len(t.Args) {
		case 3:
			k.z = t.Args[2].id
			fallthrough
		case 2:
			k.y = t.Args[1].id
			fallthrough
		case 1:
			k.x = t.Args[0].id
		}
		if r := c.tab[k]; r != nil {
			return r
		}
		c.tab[k] = t
	} else {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d/%d", t.Op, t.Sort)
		for _, a := range t.Args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		if r := c.ntab[sb.String()]; r != nil {
			return r
		}
		c.ntab[sb.String()] = t
	}
	t.id = c.n
	c.n++
	if t.Op == OpVar {
		t.single = t
	}
	for _, a := range t.Args {
		if a.multi {
			t.multi = true
			t.single = nil
			break
		}
		if a.single != nil {
			if t.single == nil {
				t.single = a.single
			} else if t.single != a.single {
				t.multi = true
				t.single = nil
				break
			}
		}
	}
	return t
}

// SingleVar returns the only variable t depends on, or nil.
func (t *Term) SingleVar() *Term { return t.single }

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) BV(v uint64, w Sort) *Term {
	return c.mk(&Term{Op: OpConst, Sort: w, Val: v & mask(w)})
}
func (c *Ctx) F(v float64) *Term {
	return c.mk(&Term{Op: OpConst, Sort: FP, Val: math.Float64bits(v)})
}
func (c *Ctx) B(v bool) *Term {
	if v {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, s Sort) *Term {
	return c.mk(&Term{Op: OpVar, Sort: s, Name: name})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var r *Term
	switch a.Op {
	case OpConst:
		r = c.B(a.Val == 0)
	case OpNot:
		r = a.Args[0]
	case OpUlt:
		r = c.Ule(a.Args[1], a.Args[0])
	case OpUle:
		r = c.Ult(a.Args[1], a.Args[0])
	case OpSlt:
		r = c.Sle(a.Args[1], a.Args[0])
	case OpSle:
		r = c.Slt(a.Args[1], a.Args[0])
	default:
		r = c.mk(&Term{Op: OpNot, Sort: Bool, Args: []*Term{a}})
	}
	a.neg = r
	r.neg = a
	return r
}

func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{Op: op, Sort: Bool, Args: out})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OpAnd, c.True, c.False, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OpOr, c.False, c.True, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if g.IsConst() {
		if g.Val != 0 {
			return a
		}
		return b
	}
	if g.Op == OpNot {
		return c.Ite(g.Args[0], b, a)
	}
	if a.Sort == Bool {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if a.Op == OpIte && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(g, x, ite(h, x, y)) = ite(g|h, x, y)
	if b.Op == OpIte && b.Args[1] == a {
		return c.Ite(c.Or(g, b.Args[0]), a, b.Args[2])
	}
	return c.mk(&Term{Op: OpIte, Sort: a.Sort, Args: []*Term{g, a, b}})
}

// constLeaves reports whether t is an ite tree of constants with at most n nodes.
func constLeaves(t *Term, n *int) bool {
	if *n--; *n < 0 {
		return false
	}
	if t.Op == OpConst {
		return true
	}
	if t.Op == OpIte {
		return constLeaves(t.Args[1], n) && constLeaves(t.Args[2], n)
	}
	return false
}

func (c *Ctx) mapLeaves(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t.Op == OpConst {
		return f(t)
	}
	if r := memo[t]; r != nil {
		return r
	}
	r := c.Ite(t.Args[0], c.mapLeaves(t.Args[1], memo, f), c.mapLeaves(t.Args[2], memo, f))
	memo[t] = r
	return r
}

// pushConst applies f to the constant leaves of t when t is a small ite tree of constants.
func (c *Ctx) pushConst(t *Term, f func(*Term) *Term) *Term {
	if t.Op != OpIte {
		return nil
	}
	n := 600
	if !constLeaves(t, &n) {
		return nil
	}
	return c.mapLeaves(t, map[*Term]*Term{}, f)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && a.Sort != FP {
		return c.True
	}
	if a.IsConst() && b.IsConst() && a.Sort != FP {
		return c.B(a.Val == b.Val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.Sort == Bool {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.IsConst() {
		if r := c.pushConst(a, func(l *Term) *Term { return c.Eq(l, b) }); r != nil {
			return r
		}
		switch a.Op {
		case OpZext:
			in := a.Args[0]
			if b.Val&^mask(in.Sort) != 0 {
				return c.False
			}
			return c.Eq(in, c.BV(b.Val, in.Sort))
		case OpSext:
			in := a.Args[0]
			if uint64(sx(b.Val&mask(in.Sort), in.Sort))&mask(a.Sort) != b.Val {
				return c.False
			}
			return c.Eq(in, c.BV(b.Val, in.Sort))
		case OpBvAdd:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.BV(b.Val-a.Args[1].Val, a.Sort))
			}
		case OpBvXor:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.BV(b.Val^a.Args[1].Val, a.Sort))
			}
		case OpIte:
			// one constant leaf
			if a.Args[1].IsConst() && a.Args[1] != b {
				return c.And(c.Not(a.Args[0]), c.Eq(a.Args[2], b))
			}
			if a.Args[2].IsConst() && a.Args[2] != b {
				return c.And(a.Args[0], c.Eq(a.Args[1], b))
			}
		}
	} else if a.Op == OpZext && b.Op == OpZext && a.Args[0].Sort == b.Args[0].Sort {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{Op: OpEq, Sort: Bool, Args: []*Term{a, b}})
}

func (c *Ctx) bin(op Op, s Sort, a, b *Term) *Term {
	return c.mk(&Term{Op: op, Sort: s, Args: []*Term{a, b}})
}

func (c *Ctx) commute(a, b *Term) (*Term, *Term) {
	if a.IsConst() && !b.IsConst() {
		return b, a
	}
	if !b.IsConst() && a.id > b.id {
		return b, a
	}
	return a, b
}

func (c *Ctx) Add(a, b *Term) *Term {
	a, b = c.commute(a, b)
	w := a.Sort
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val+b.Val, w)
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.Op == OpBvAdd && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.BV(a.Args[1].Val+b.Val, w))
		}
		if r := c.pushConst(a, func(l *Term) *Term { return c.Add(l, b) }); r != nil {
			return r
		}
	}
	return c.bin(OpBvAdd, w, a, b)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.BV(-a.Val, a.Sort)
	}
	return c.mk(&Term{Op: OpBvNeg, Sort: a.Sort, Args: []*Term{a}})
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if b.IsConst() {
		return c.Add(a, c.BV(-b.Val, b.Sort))
	}
	if a == b {
		return c.BV(0, a.Sort)
	}
	if r := c.cancel(a, b); r != nil {
		return r
	}
	return c.bin(OpBvSub, a.Sort, a, b)
}

// addends lists the terms of a sum and its constant.
func addends(t *Term, out []*Term, k uint64, d int) ([]*Term, uint64) {
	if t.Op == OpBvAdd && d > 0 {
		out, k = addends(t.Args[0], out, k, d-1)
		return addends(t.Args[1], out, k, d-1)
	}
	if t.IsConst() {
		return out, k + t.Val
	}
	return append(out, t), k
}

// cancel simplifies the difference of two sums with common terms.
func (c *Ctx) cancel(a, b *Term) *Term {
	if a.Op != OpBvAdd && b.Op != OpBvAdd {
		return nil
	}
	x, k := addends(a, nil, 0, 8)
	y, l := addends(b, nil, 0, 8)
	if len(x)+len(y) > 24 {
		return nil
	}
	hit := k != 0 && l != 0
	for i := 0; i < len(y); i++ {
		for j := range x {
			if x[j] == y[i] {
				x = append(x[:j:j], x[j+1:]...)
				y = append(y[:i:i], y[i+1:]...)
				i--
				hit = true
				break
			}
		}
	}
	if !hit {
		return nil
	}
	sum := func(ts []*Term) *Term {
		r := c.BV(0, a.Sort)
		for _, t := range ts {
			r = c.Add(r, t)
		}
		return r
	}
	return c.Add(c.Sub(sum(x), sum(y)), c.BV((k-l)&mask(a.Sort), a.Sort))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	a, b = c.commute(a, b)
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val*b.Val, a.Sort)
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == 1 {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return c.Shl(a, c.BV(uint64(bits.TrailingZeros64(b.Val)), a.Sort))
		}
		if r := c.pushConst(a, func(l *Term) *Term { return c.Mul(l, b) }); r != nil {
			return r
		}
	}
	return c.bin(OpBvMul, a.Sort, a, b)
}

// maxVal gives an upper bound of t as an unsigned number.
func maxVal(t *Term, d int) uint64 {
	m := mask(t.Sort)
	if d == 0 {
		return m
	}
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZext:
		return maxVal(t.Args[0], d-1)
	case OpBvAnd:
		x := maxVal(t.Args[1], d-1)
		if y := maxVal(t.Args[0], d-1); y < x {
			x = y
		}
		return x
	case OpBvUrem:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return t.Args[1].Val - 1
		}
	case OpBvUdiv:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return maxVal(t.Args[0], d-1) / t.Args[1].Val
		}
	case OpBvLshr:
		if t.Args[1].IsConst() && t.Args[1].Val < 64 {
			return maxVal(t.Args[0], d-1) >> t.Args[1].Val
		}
	case OpBvAdd:
		x, y := maxVal(t.Args[0], d-1), maxVal(t.Args[1], d-1)
		if s, cy := bits.Add64(x, y, 0); cy == 0 && s <= m {
			return s
		}
	case OpBvMul:
		x, y := maxVal(t.Args[0], d-1), maxVal(t.Args[1], d-1)
		if hi, lo := bits.Mul64(x, y); hi == 0 && lo <= m {
			return lo
		}
	case OpIte:
		x, y := maxVal(t.Args[1], d-1), maxVal(t.Args[2], d-1)
		if x > y {
			return x
		}
		return y
	}
	return m
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return c.BV(a.Val/b.Val, a.Sort)
		}
		if b.Val == 1 {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return c.Lshr(a, c.BV(uint64(bits.TrailingZeros64(b.Val)), a.Sort))
		}
		if maxVal(a, 6) < b.Val {
			return c.BV(0, a.Sort)
		}
		if q := c.exact(a, b.Val, false); q != nil {
			return q
		}
		if r := c.narrow(a, b, c.Udiv); r != nil {
			return r
		}
	}
	return c.bin(OpBvUdiv, a.Sort, a, b)
}

// narrow performs an unsigned division or remainder at the smallest width that holds the operand.
func (c *Ctx) narrow(a, b *Term, f func(a, b *Term) *Term) *Term {
	m := maxVal(a, 6)
	if b.Val > m {
		m = b.Val
	}
	w := Sort(bits.Len64(m))
	if w < 4 {
		w = 4
	}
	if w+4 >= a.Sort {
		return nil
	}
	return c.Zext(f(c.Extract(a, int(w)-1, 0), c.BV(b.Val, w)), a.Sort)
}

func (c *Ctx) Urem(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return c.BV(a.Val%b.Val, a.Sort)
		}
		if b.Val&(b.Val-1) == 0 {
			return c.BvAnd(a, c.BV(b.Val-1, a.Sort))
		}
		if maxVal(a, 6) < b.Val {
			return a
		}
		if c.exact(a, b.Val, false) != nil {
			return c.BV(0, a.Sort)
		}
		if r := c.narrow(a, b, c.Urem); r != nil {
			return r
		}
	}
	return c.bin(OpBvUrem, a.Sort, a, b)
}

// split gives quotient and remainder (towards zero) of x*f + r by k, where
// k divides f, 0 <= r and nothing overflows, and of its negation.
func (c *Ctx) split(a *Term, k uint64) (q, r *Term) {
	if a.Op == OpBvNeg {
		if _, _, ok := srange(a, 8); !ok {
			return nil, nil
		}
		if q, r = c.split(a.Args[0], k); q != nil {
			return c.Neg(q), c.Neg(r)
		}
		return nil, nil
	}
	if a.Op != OpBvAdd || !a.Args[1].IsConst() {
		return nil, nil
	}
	x, n := a.Args[0], a.Args[1].Val
	if lo, _, ok := srange(a, 8); !ok || lo < 0 || sx(n, a.Sort) < 0 {
		return nil, nil
	}
	if lo, _, ok := srange(x, 8); !ok || lo < 0 {
		return nil, nil
	}
	if q = c.exact(x, k, true); q == nil {
		return nil, nil
	}
	return c.Add(q, c.BV(n/k, a.Sort)), c.BV(n%k, a.Sort)
}

// exact divides a product by one of its constant factors, where the product
// cannot overflow.
func (c *Ctx) exact(a *Term, k uint64, signed bool) *Term {
	if signed && a.Op == OpBvNeg {
		if q := c.exact(a.Args[0], k, true); q != nil {
			return c.Neg(q)
		}
	}
	if a.Op != OpBvMul || !a.Args[1].IsConst() || k == 0 {
		return nil
	}
	f := a.Args[1].Val
	if f%k != 0 {
		return nil
	}
	if signed {
		lo, hi, ok := srange(a.Args[0], 8)
		if !ok || sx(f, a.Sort) <= 0 {
			return nil
		}
		if _, ok := smul(lo, int64(f), a.Sort); !ok {
			return nil
		}
		if _, ok := smul(hi, int64(f), a.Sort); !ok {
			return nil
		}
	} else if h, l := bits.Mul64(maxVal(a.Args[0], 6), f); h != 0 || l > mask(a.Sort) {
		return nil
	}
	return c.Mul(a.Args[0], c.BV(f/k, a.Sort))
}

func smul(a, b int64, w Sort) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	return p, p/b == a && sfits(p, w)
}

func sfits(v int64, w Sort) bool {
	if w >= 64 {
		return v > -1<<63
	}
	return v > -(1<<(w-1)) && v < 1<<(w-1)
}

// srange bounds t as a signed number.
func srange(t *Term, d int) (lo, hi int64, ok bool) {
	if t.Sort < 2 || t.Sort > 64 {
		return 0, 0, false
	}
	if t.IsConst() {
		v := sx(t.Val, t.Sort)
		return v, v, true
	}
	if t.Op != OpBvAdd || d == 0 {
		if m := maxVal(t, 6); m <= mask(t.Sort)>>1 {
			return 0, int64(m), true
		}
	}
	if d == 0 {
		return 0, 0, false
	}
	switch t.Op {
	case OpSext:
		return srange(t.Args[0], d-1)
	case OpBvNeg:
		a, b, ok1 := srange(t.Args[0], d-1)
		return -b, -a, ok1 && a > -(1<<62) && sfits(-a, t.Sort)
	case OpBvAdd, OpBvSub:
		a, b, ok1 := srange(t.Args[0], d-1)
		e, f, ok2 := srange(t.Args[1], d-1)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if t.Op == OpBvSub {
			if e == -1<<63 {
				return 0, 0, false
			}
			e, f = -f, -e
		}
		lo, hi = a+e, b+f
		if (e < 0) != (lo < a) && e != 0 || (f < 0) != (hi < b) && f != 0 {
			return 0, 0, false
		}
		return lo, hi, sfits(lo, t.Sort) && sfits(hi, t.Sort)
	case OpBvMul:
		if !t.Args[1].IsConst() || sx(t.Args[1].Val, t.Sort) <= 0 {
			return 0, 0, false
		}
		a, b, ok1 := srange(t.Args[0], d-1)
		if !ok1 {
			return 0, 0, false
		}
		k := sx(t.Args[1].Val, t.Sort)
		lo, ok1 = smul(a, k, t.Sort)
		hi, ok2 := smul(b, k, t.Sort)
		return lo, hi, ok1 && ok2
	case OpIte:
		a, b, ok1 := srange(t.Args[1], d-1)
		e, f, ok2 := srange(t.Args[2], d-1)
		return min(a, e), max(b, f), ok1 && ok2
	}
	return 0, 0, false
}

func (c *Ctx) nonneg(a *Term) bool { return maxVal(a, 6) <= mask(a.Sort)>>1 }
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		return c.BV(uint64(sx(a.Val, a.Sort)/sx(b.Val, b.Sort)), a.Sort)
	}
	if b.IsConst() && sx(b.Val, b.Sort) > 0 && a.Op == OpBvAdd {
		if q, _ := c.split(a, b.Val); q != nil {
			return q
		}
	}
	if b.IsConst() && b.Val != 0 && c.nonneg(a) && c.nonneg(b) {
		return c.Udiv(a, b)
	}
	if b.IsConst() && sx(b.Val, b.Sort) > 0 {
		if q := c.exact(a, b.Val, true); q != nil {
			return q
		}
		if q, _ := c.split(a, b.Val); q != nil {
			return q
		}
	}
	return c.bin(OpBvSdiv, a.Sort, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		return c.BV(uint64(sx(a.Val, a.Sort)%sx(b.Val, b.Sort)), a.Sort)
	}
	if b.IsConst() && sx(b.Val, b.Sort) > 0 && a.Op == OpBvAdd {
		if _, r := c.split(a, b.Val); r != nil {
			return r
		}
	}
	if b.IsConst() && b.Val != 0 && c.nonneg(a) && c.nonneg(b) {
		return c.Urem(a, b)
	}
	if b.IsConst() && sx(b.Val, b.Sort) > 0 && c.exact(a, b.Val, true) != nil {
		return c.BV(0, a.Sort)
	}
	if b.IsConst() && sx(b.Val, b.Sort) > 0 {
		if _, r := c.split(a, b.Val); r != nil {
			return r
		}
	}
	return c.bin(OpBvSrem, a.Sort, a, b)
}
func (c *Ctx) BvAnd(a, b *Term) *Term {
	a, b = c.commute(a, b)
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val&b.Val, a.Sort)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == mask(b.Sort) {
			return a
		}
		if m := maxVal(a, 6); bits.Len64(m) < 64 && b.Val&((1<<bits.Len64(m))-1) == (1<<bits.Len64(m))-1 {
			return a
		}
		if r := c.pushConst(a, func(l *Term) *Term { return c.BvAnd(l, b) }); r != nil {
			return r
		}
		if a.Op == OpZext {
			in := a.Args[0]
			return c.Zext(c.BvAnd(in, c.BV(b.Val, in.Sort)), a.Sort)
		}
		if a.Op == OpBvAnd && a.Args[1].IsConst() {
			return c.BvAnd(a.Args[0], c.BV(a.Args[1].Val&b.Val, a.Sort))
		}
	}
	return c.bin(OpBvAnd, a.Sort, a, b)
}
func (c *Ctx) BvOr(a, b *Term) *Term {
	a, b = c.commute(a, b)
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val|b.Val, a.Sort)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val == mask(b.Sort) {
			return b
		}
		if r := c.pushConst(a, func(l *Term) *Term { return c.BvOr(l, b) }); r != nil {
			return r
		}
	}
	return c.bin(OpBvOr, a.Sort, a, b)
}
func (c *Ctx) BvXor(a, b *Term) *Term {
	a, b = c.commute(a, b)
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val^b.Val, a.Sort)
	}
	if a == b {
		return c.BV(0, a.Sort)
	}
	if b.IsConst() && b.Val == 0 {
		return a
	}
	return c.bin(OpBvXor, a.Sort, a, b)
}
func (c *Ctx) BvNot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(^a.Val, a.Sort)
	}
	if a.Op == OpBvNot {
		return a.Args[0]
	}
	return c.mk(&Term{Op: OpBvNot, Sort: a.Sort, Args: []*Term{a}})
}
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val >= uint64(a.Sort) {
			return c.BV(0, a.Sort)
		}
		if a.IsConst() {
			return c.BV(a.Val<<b.Val, a.Sort)
		}
	}
	return c.bin(OpBvShl, a.Sort, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val >= uint64(a.Sort) {
			return c.BV(0, a.Sort)
		}
		if a.IsConst() {
			return c.BV(a.Val>>b.Val, a.Sort)
		}
		if m := maxVal(a, 6); m>>b.Val == 0 {
			return c.BV(0, a.Sort)
		}
	}
	return c.bin(OpBvLshr, a.Sort, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.IsConst() && a.IsConst() {
		s := b.Val
		if s >= uint64(a.Sort) {
			s = uint64(a.Sort) - 1
		}
		return c.BV(uint64(sx(a.Val, a.Sort)>>s), a.Sort)
	}
	if b.IsConst() && b.Val == 0 {
		return a
	}
	if c.nonneg(a) {
		return c.Lshr(a, b)
	}
	return c.bin(OpBvAshr, a.Sort, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.B(a.Val < b.Val)
	}
	if b.IsConst() {
		if b.Val == 0 {
			return c.False
		}
		if b.Val == 1 {
			return c.Eq(a, c.BV(0, a.Sort))
		}
		if maxVal(a, 6) < b.Val {
			return c.True
		}
		if r := c.pushConst(a, func(l *Term) *Term { return c.Ult(l, b) }); r != nil {
			return r
		}
		if a.Op == OpZext {
			in := a.Args[0]
			return c.Ult(in, c.BV(b.Val, in.Sort)) // b.Val <= maxVal(in)
		}
	}
	if a.IsConst() {
		if a.Val == mask(a.Sort) {
			return c.False
		}
		if maxVal(b, 6) <= a.Val {
			return c.False
		}
		if r := c.pushConst(b, func(l *Term) *Term { return c.Ult(a, l) }); r != nil {
			return r
		}
		if b.Op == OpZext {
			in := b.Args[0]
			return c.Ult(c.BV(a.Val, in.Sort), in)
		}
	}
	if a.Op == OpZext && b.Op == OpZext && a.Args[0].Sort == b.Args[0].Sort {
		return c.Ult(a.Args[0], b.Args[0])
	}
	return c.bin(OpUlt, Bool, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.B(a.Val <= b.Val)
	}
	if b.IsConst() {
		if b.Val == mask(b.Sort) {
			return c.True
		}
		return c.Ult(a, c.BV(b.Val+1, b.Sort))
	}
	if a.IsConst() {
		if a.Val == 0 {
			return c.True
		}
		return c.Ult(c.BV(a.Val-1, a.Sort), b)
	}
	if a.Op == OpZext && b.Op == OpZext && a.Args[0].Sort == b.Args[0].Sort {
		return c.Ule(a.Args[0], b.Args[0])
	}
	return c.bin(OpUle, Bool, a, b)
}
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.B(sx(a.Val, a.Sort) < sx(b.Val, b.Sort))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if c.nonneg(a) && b.IsConst() { // b negative
		return c.False
	}
	if c.nonneg(b) && a.IsConst() {
		return c.True
	}
	if b.IsConst() {
		if r := c.pushConst(a, func(l *Term) *Term { return c.Slt(l, b) }); r != nil {
			return r
		}
	}
	if a.IsConst() {
		if r := c.pushConst(b, func(l *Term) *Term { return c.Slt(a, l) }); r != nil {
			return r
		}
	}
	return c.bin(OpSlt, Bool, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.B(sx(a.Val, a.Sort) <= sx(b.Val, b.Sort))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if c.nonneg(a) && b.IsConst() {
		return c.False
	}
	if c.nonneg(b) && a.IsConst() {
		return c.True
	}
	if b.IsConst() {
		if r := c.pushConst(a, func(l *Term) *Term { return c.Sle(l, b) }); r != nil {
			return r
		}
	}
	if a.IsConst() {
		if r := c.pushConst(b, func(l *Term) *Term { return c.Sle(a, l) }); r != nil {
			return r
		}
	}
	return c.bin(OpSle, Bool, a, b)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if lo == 0 && w == a.Sort {
		return a
	}
	if a.IsConst() {
		return c.BV(a.Val>>uint(lo), w)
	}
	if r := c.pushConst(a, func(l *Term) *Term { return c.Extract(l, hi, lo) }); r != nil {
		return r
	}
	switch a.Op {
	case OpExtract:
		return c.Extract(a.Args[0], hi+a.B, lo+a.B)
	case OpZext, OpSext:
		in := a.Args[0]
		if hi < int(in.Sort) {
			return c.Extract(in, hi, lo)
		}
		if lo == 0 {
			if a.Op == OpZext {
				return c.Zext(in, w)
			}
			return c.Sext(in, w)
		}
		if a.Op == OpZext && lo >= int(in.Sort) {
			return c.BV(0, w)
		}
	case OpBvAdd, OpBvSub, OpBvMul, OpBvAnd, OpBvOr, OpBvXor:
		if lo == 0 {
			x, y := c.Extract(a.Args[0], hi, 0), c.Extract(a.Args[1], hi, 0)
			switch a.Op {
			case OpBvAdd:
				return c.Add(x, y)
			case OpBvSub:
				return c.Sub(x, y)
			case OpBvMul:
				return c.Mul(x, y)
			case OpBvAnd:
				return c.BvAnd(x, y)
			case OpBvOr:
				return c.BvOr(x, y)
			case OpBvXor:
				return c.BvXor(x, y)
			}
		}
	}
	return c.mk(&Term{Op: OpExtract, Sort: w, A: hi, B: lo, Args: []*Term{a}})
}
func (c *Ctx) Zext(a *Term, w Sort) *Term {
	if a.Sort == w {
		return a
	}
	if a.IsConst() {
		return c.BV(a.Val, w)
	}
	if a.Op == OpZext {
		return c.Zext(a.Args[0], w)
	}
	if r := c.pushConst(a, func(l *Term) *Term { return c.BV(l.Val, w) }); r != nil {
		return r
	}
	return c.mk(&Term{Op: OpZext, Sort: w, Args: []*Term{a}})
}
func (c *Ctx) Sext(a *Term, w Sort) *Term {
	if a.Sort == w {
		return a
	}
	if a.IsConst() {
		return c.BV(uint64(sx(a.Val, a.Sort)), w)
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	if r := c.pushConst(a, func(l *Term) *Term { return c.BV(uint64(sx(l.Val, l.Sort)), w) }); r != nil {
		return r
	}
	return c.mk(&Term{Op: OpSext, Sort: w, Args: []*Term{a}})
}

// Floating point.
func (c *Ctx) FOp(op Op, s Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		all = all && a.IsConst()
	}
	if !all {
		if r := c.fint(op, args); r != nil {
			return r
		}
	}
	t := &Term{Op: op, Sort: s, Args: args}
	if all && op != OpFToS && op != OpFToU {
		v := evalNode(t, func(a *Term) uint64 { return a.Val })
		return c.mk(&Term{Op: OpConst, Sort: s, Val: v})
	}
	return c.mk(t)
}

// ExactU returns the integer behind an exact conversion of a small unsigned
// integer to floating point.
func (c *Ctx) ExactU(t *Term) *Term {
	if t.Op != OpFFromU || maxVal(t.Args[0], 6) > 1<<53 {
		return nil
	}
	a := t.Args[0]
	if a.Sort < 64 {
		a = c.Zext(a, 64)
	}
	return a
}

// fint turns floating point operations on exact integers into integer ones.
func (c *Ctx) fint(op Op, args []*Term) *Term {
	u := c.ExactU(args[0])
	if len(args) == 1 {
		if u == nil {
			return nil
		}
		switch op {
		case OpFToS, OpFToU:
			return u
		case OpFTrunc:
			return args[0]
		case OpFIsNaN:
			return c.False
		}
		return nil
	}
	if op != OpFLt && op != OpFLe && op != OpFEq {
		return nil
	}
	if v := c.ExactU(args[1]); u != nil && v != nil {
		switch op {
		case OpFLt:
			return c.Ult(u, v)
		case OpFLe:
			return c.Ule(u, v)
		}
		return c.Eq(u, v)
	} else if u != nil && args[1].IsConst() {
		k := math.Float64frombits(args[1].Val)
		switch {
		case math.IsNaN(k) || k < 0:
			return c.False
		case k > 1<<60:
			return c.B(op != OpFEq)
		}
		switch op {
		case OpFLt:
			return c.Ult(u, c.BV(uint64(math.Ceil(k)), 64))
		case OpFLe:
			return c.Ule(u, c.BV(uint64(math.Floor(k)), 64))
		}
		if k != math.Floor(k) {
			return c.False
		}
		return c.Eq(u, c.BV(uint64(k), 64))
	} else if v != nil && args[0].IsConst() {
		k := math.Float64frombits(args[0].Val)
		switch {
		case math.IsNaN(k):
			return c.False
		case k < 0:
			return c.B(op != OpFEq)
		case k > 1<<60:
			return c.False
		}
		switch op {
		case OpFLt:
			return c.Ult(c.BV(uint64(math.Floor(k)), 64), v)
		case OpFLe:
			return c.Ule(c.BV(uint64(math.Ceil(k)), 64), v)
		}
		if k != math.Floor(k) {
			return c.False
		}
		return c.Eq(v, c.BV(uint64(k), 64))
	}
	return nil
}
