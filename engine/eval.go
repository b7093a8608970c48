package main

import "math"

// Model assigns values to variables (by variable id); unassigned variables are 0.
type Model map[uint32]uint64

type evaluator struct {
	m    Model
	memo map[*Expr]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Expr]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ev *evaluator) eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		return ev.m[uint32(e.val)] & mask(e.w)
	}
	if v, ok := ev.memo[e]; ok {
		return v
	}
	var r uint64
	switch e.op {
	case OIte:
		if ev.eval(e.a[0]) != 0 {
			r = ev.eval(e.a[1])
		} else {
			r = ev.eval(e.a[2])
		}
	case OBAnd:
		r = b2u(ev.eval(e.a[0]) != 0 && ev.eval(e.a[1]) != 0)
	case OBOr:
		r = b2u(ev.eval(e.a[0]) != 0 || ev.eval(e.a[1]) != 0)
	default:
		x := ev.eval(e.a[0])
		var y uint64
		if e.a[1] != nil {
			y = ev.eval(e.a[1])
		}
		r = applyOp(e, x, y)
	}
	r &= mask(e.w)
	ev.memo[e] = r
	return r
}

func applyOp(e *Expr, x, y uint64) uint64 {
	w := e.a[0].w
	switch e.op {
	case OAdd:
		return x + y
	case OSub:
		return x - y
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		return uint64(sdivc(a, b))
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case ONot:
		return ^x
	case ONeg:
		return -x
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w) >> y)
	case OConcat:
		return x<<e.a[1].w | y
	case OExtract:
		return x >> e.aux
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, w))
	case OEq:
		return b2u(x == y)
	case OULt:
		return b2u(x < y)
	case OULe:
		return b2u(x <= y)
	case OSLt:
		return b2u(sx(x, w) < sx(y, w))
	case OSLe:
		return b2u(sx(x, w) <= sx(y, w))
	case OBNot:
		return b2u(x == 0)
	case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFEq, OFLt, OFLe, OFFromS, OFFromU, OFToS, OFToU, OFToF:
		return applyFloat(e.op, w, e.w, x, y)
	}
	panic("applyOp " + opName[e.op])
}

func tof(x uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}

func fromf(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func applyFloat(op Op, w, rw uint8, x, y uint64) uint64 {
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			var r float32
			switch op {
			case OFAdd:
				r = a + b
			case OFSub:
				r = a - b
			case OFMul:
				r = a * b
			case OFDiv:
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		var r float64
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return math.Float64bits(r)
	case OFNeg:
		return x ^ uint64(1)<<(w-1)
	case OFEq:
		return b2u(tof(x, w) == tof(y, w))
	case OFLt:
		return b2u(tof(x, w) < tof(y, w))
	case OFLe:
		return b2u(tof(x, w) <= tof(y, w))
	case OFFromS:
		if rw == 32 {
			return uint64(math.Float32bits(float32(sx(x, w))))
		}
		return math.Float64bits(float64(sx(x, w)))
	case OFFromU:
		if rw == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		return uint64(int64(tof(x, w)))
	case OFToU:
		return uint64(tof(x, w))
	case OFToF:
		return fromf(tof(x, w), rw)
	}
	panic("applyFloat")
}

// FOp builds a floating point term, folding constants.
func FOp(op Op, rw uint8, a, b *Expr) *Expr {
	if a.isConst() && (b == nil || b.isConst()) {
		var y uint64
		if b != nil {
			y = b.val
		}
		return Const(rw, applyFloat(op, a.w, rw, a.val, y))
	}
	if op == OFNeg {
		return BXor(a, Const(a.w, uint64(1)<<(a.w-1)))
	}
	if op == OFToF && a.op == OFToF && a.a[0].w == rw && a.w == 64 {
		// float32 -> float64 -> float32 (exact up to NaN payload)
		return mk(op, rw, a)
	}
	if b == nil {
		return mk(op, rw, a)
	}
	switch op {
	case OFAdd:
		if b.isConst() || !a.isConst() && b.id < a.id {
			a, b = b, a // commutative
		}
		if a.isConst() && a.val == 0 && neverNegZero(b) {
			return b
		}
	case OFEq, OFLe:
		if a == b && tame(a, 40) {
			return True
		}
	}
	return mk(op, rw, a, b)
}

// neverNegZero: the value is known not to be -0 (so that adding +0 to it changes nothing).
func neverNegZero(e *Expr) bool {
	switch e.op {
	case OFFromS, OFFromU:
		return true
	case OConst:
		return e.val != uint64(1)<<(e.w-1)
	case OFAdd: // -0 only if both are
		return neverNegZero(e.a[0]) || neverNegZero(e.a[1])
	}
	return false
}

// tame: a value that is neither infinite nor NaN: sums of a few integers and moderate constants.
func tame(e *Expr, depth int) bool {
	if depth == 0 {
		return false
	}
	switch e.op {
	case OFFromS, OFFromU:
		return true
	case OConst:
		f := math.Float64frombits(e.val)
		if e.w == 32 {
			f = float64(math.Float32frombits(uint32(e.val)))
		}
		return f > -1e18 && f < 1e18
	case OFAdd, OFSub:
		return tame(e.a[0], depth-1) && tame(e.a[1], depth-1)
	case OFDiv:
		return e.a[1].isConst() && tame(e.a[0], depth-1) && notSmall(e.a[1])
	}
	return false
}

func notSmall(e *Expr) bool {
	f := math.Float64frombits(e.val)
	if e.w == 32 {
		f = float64(math.Float32frombits(uint32(e.val)))
	}
	return f >= 1 || f <= -1
}
