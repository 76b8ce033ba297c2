package smt

import "math"

// Model maps variable names to values.
type Model map[string]uint64

// Eval evaluates t under m (missing variables are 0).
func Eval(t *Term, m Model) uint64 {
	memo := map[*Term]uint64{}
	var ev func(t *Term) uint64
	ev = func(t *Term) uint64 {
		switch t.Op {
		case OpConst:
			return t.Val
		case OpVar:
			return m[t.Name]
		}
		if v, ok := memo[t]; ok {
			return v
		}
		var v uint64
		switch t.Op {
		case OpIte:
			if ev(t.Args[0]) != 0 {
				v = ev(t.Args[1])
			} else {
				v = ev(t.Args[2])
			}
		case OpAnd:
			v = 1
			for _, a := range t.Args {
				if ev(a) == 0 {
					v = 0
					break
				}
			}
		case OpOr:
			for _, a := range t.Args {
				if ev(a) != 0 {
					v = 1
					break
				}
			}
		default:
			v = evalNode(t, ev)
		}
		memo[t] = v
		return v
	}
	return ev(t)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalNode(t *Term, ev func(*Term) uint64) uint64 {
	m := mask(t.Sort)
	x := ev(t.Args[0])
	w := t.Args[0].Sort
	var y uint64
	if len(t.Args) > 1 {
		y = ev(t.Args[1])
	}
	f := math.Float64frombits
	fb := math.Float64bits
	switch t.Op {
	case OpNot:
		return 1 - x
	case OpEq:
		if w == FP {
			// SMT structural equality: NaN = NaN
			if math.IsNaN(f(x)) && math.IsNaN(f(y)) {
				return 1
			}
		}
		return b2u(x == y)
	case OpBvAdd:
		return (x + y) & m
	case OpBvSub:
		return (x - y) & m
	case OpBvMul:
		return (x * y) & m
	case OpBvUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpBvUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OpBvSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpBvSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBvAnd:
		return x & y
	case OpBvOr:
		return x | y
	case OpBvXor:
		return x ^ y
	case OpBvNot:
		return ^x & m
	case OpBvNeg:
		return -x & m
	case OpBvShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OpBvLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpBvAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sx(x, w) < sx(y, w))
	case OpSle:
		return b2u(sx(x, w) <= sx(y, w))
	case OpExtract:
		return x >> uint(t.B) & m
	case OpZext:
		return x
	case OpSext:
		return uint64(sx(x, w)) & m
	case OpFAdd:
		return fb(f(x) + f(y))
	case OpFSub:
		return fb(f(x) - f(y))
	case OpFMul:
		return fb(f(x) * f(y))
	case OpFDiv:
		return fb(f(x) / f(y))
	case OpFNeg:
		return fb(-f(x))
	case OpFEq:
		return b2u(f(x) == f(y))
	case OpFLt:
		return b2u(f(x) < f(y))
	case OpFLe:
		return b2u(f(x) <= f(y))
	case OpFIsNaN:
		return b2u(math.IsNaN(f(x)))
	case OpFFromBits:
		return x
	case OpFFromS:
		return fb(float64(sx(x, w)))
	case OpFFromU:
		return fb(float64(x))
	case OpFToS:
		return uint64(int64(f(x)))
	case OpFToU:
		return uint64(f(x))
	case OpFTrunc:
		return fb(math.Trunc(f(x)))
	}
	panic("evalNode: op")
}

// Vars collects the variables of t into set.
func Vars(t *Term, set map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OpVar {
		set[t] = true
	}
	for _, a := range t.Args {
		Vars(a, set, seen)
	}
}
