package main

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

// Op is the operator of a hash-consed term. Width 0 terms are booleans, the others bit-vectors.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // aux = lo, width = hi-lo+1
	OZExt
	OSExt
	OIte
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OBAnd
	OBOr
	OBNot
	// floating point; operands are IEEE bit patterns
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromS // signed int -> float, aux = unused
	OFFromU
	OFToS // float -> signed int (width), rtz
	OFToU
	OFToF // float width change
)

var opName = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not", "fadd", "fsub", "fmul", "fdiv", "fneg", "feq", "flt", "fle", "ffroms", "ffromu", "ftos", "ftou", "ftof"}

// Expr is a term. Terms are immutable and shared; pointer equality is term equality.
type Expr struct {
	op    Op
	w     uint8
	aux   uint8
	depth int32
	id    uint64
	val   uint64
	a     [3]*Expr
	name  string
	lo    uint64 // unsigned range
	hi    uint64
	vars  *varset
}

type varset struct {
	ids []uint32 // sorted
}

type exprKey struct {
	op   Op
	w    uint8
	aux  uint8
	val  uint64
	a    [3]*Expr
	name string
}

const nshard = 64

type shard struct {
	mu sync.Mutex
	m  map[exprKey]*Expr
}

var shards [nshard]shard
var exprID uint64
var smallConst [65][256]*Expr

var varMu sync.Mutex
var varIDs = map[string]uint32{}
var varExprs []*Expr

var (
	True  *Expr
	False *Expr
)

func init() {
	for i := range shards {
		shards[i].m = map[exprKey]*Expr{}
	}
	for _, w := range []int{1, 8, 16, 32, 64} {
		n := 256
		if w < 8 {
			n = 2
		}
		for i := 0; i < n; i++ {
			smallConst[w][i] = intern(exprKey{op: OConst, w: uint8(w), val: uint64(i)})
		}
	}
	False = intern(exprKey{op: OConst, w: 0, val: 0})
	True = intern(exprKey{op: OConst, w: 0, val: 1})
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func hashKey(k *exprKey) uint64 {
	h := uint64(k.op)*0x9E3779B97F4A7C15 ^ uint64(k.w)<<8 ^ uint64(k.aux)<<16
	h ^= k.val * 0xBF58476D1CE4E5B9
	for _, x := range k.a {
		if x != nil {
			h = (h ^ x.id) * 0x94D049BB133111EB
			h ^= h >> 29
		}
	}
	for i := 0; i < len(k.name); i++ {
		h = (h ^ uint64(k.name[i])) * 0x100000001b3
	}
	h ^= h >> 32
	return h
}

func mergeVars(a, b *varset) *varset {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	// subset tests
	i, j := 0, 0
	out := make([]uint32, 0, len(a.ids)+len(b.ids))
	for i < len(a.ids) && j < len(b.ids) {
		if a.ids[i] == b.ids[j] {
			out = append(out, a.ids[i])
			i++
			j++
		} else if a.ids[i] < b.ids[j] {
			out = append(out, a.ids[i])
			i++
		} else {
			out = append(out, b.ids[j])
			j++
		}
	}
	out = append(out, a.ids[i:]...)
	out = append(out, b.ids[j:]...)
	if len(out) == len(a.ids) {
		return a
	}
	if len(out) == len(b.ids) {
		return b
	}
	return &varset{out}
}

func intern(k exprKey) *Expr {
	s := &shards[hashKey(&k)%nshard]
	s.mu.Lock()
	if e, ok := s.m[k]; ok {
		s.mu.Unlock()
		return e
	}
	e := &Expr{op: k.op, w: k.w, aux: k.aux, val: k.val, a: k.a, name: k.name}
	e.id = atomic.AddUint64(&exprID, 1)
	for _, c := range k.a {
		if c != nil {
			e.vars = mergeVars(e.vars, c.vars)
			if c.depth >= e.depth {
				e.depth = c.depth + 1
			}
		}
	}
	if k.op == OVar {
		varMu.Lock()
		id, ok := varIDs[k.name]
		if !ok {
			id = uint32(len(varExprs))
			varIDs[k.name] = id
			varExprs = append(varExprs, e)
		}
		varMu.Unlock()
		e.val = uint64(id)
		e.vars = &varset{[]uint32{id}}
	}
	setRange(e)
	s.m[k] = e
	s.mu.Unlock()
	return e
}

func setRange(e *Expr) {
	m := mask(e.w)
	e.lo, e.hi = 0, m
	switch e.op {
	case OConst:
		e.lo, e.hi = e.val, e.val
	case OZExt:
		e.lo, e.hi = e.a[0].lo, e.a[0].hi
	case OSExt:
		if e.a[0].hi < uint64(1)<<(e.a[0].w-1) {
			e.lo, e.hi = e.a[0].lo, e.a[0].hi
		}
	case OIte:
		e.lo, e.hi = min(e.a[1].lo, e.a[2].lo), max(e.a[1].hi, e.a[2].hi)
	case OAdd:
		a, b := e.a[0], e.a[1]
		h := a.hi + b.hi
		if h >= a.hi && h <= m {
			e.lo, e.hi = a.lo+b.lo, h
		} else if b.op == OConst {
			// x + (-c)
			c := (-b.val) & m
			if a.lo >= c {
				e.lo, e.hi = a.lo-c, a.hi-c
			}
		}
	case OSub:
		a, b := e.a[0], e.a[1]
		if a.lo >= b.hi {
			e.lo, e.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		a, b := e.a[0], e.a[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = a.lo*b.lo, l
		}
	case OUDiv:
		a, b := e.a[0], e.a[1]
		if b.lo > 0 {
			e.lo, e.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if e.a[1].lo > 0 {
			e.lo, e.hi = 0, min(e.a[0].hi, e.a[1].hi-1)
		}
	case OSDiv:
		a, b := e.a[0], e.a[1]
		half := uint64(1) << (e.w - 1)
		if a.hi < half && b.hi < half && b.lo > 0 {
			e.lo, e.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OSRem:
		a, b := e.a[0], e.a[1]
		half := uint64(1) << (e.w - 1)
		if a.hi < half && b.hi < half && b.lo > 0 {
			e.lo, e.hi = 0, min(a.hi, b.hi-1)
		}
	case OAnd:
		e.hi = min(e.a[0].hi, e.a[1].hi)
	case OOr, OXor:
		h := e.a[0].hi | e.a[1].hi
		if h != 0 {
			e.hi = (uint64(1) << bits.Len64(h)) - 1
			if bits.Len64(h) == 64 {
				e.hi = ^uint64(0)
			}
		} else {
			e.hi = 0
		}
	case OLShr:
		if e.a[1].op == OConst {
			if e.a[1].val >= 64 {
				e.hi = 0
			} else {
				e.lo, e.hi = e.a[0].lo>>e.a[1].val, e.a[0].hi>>e.a[1].val
			}
		} else {
			e.hi = e.a[0].hi
		}
	case OShl:
		if e.a[1].op == OConst && e.a[1].val < 64 {
			if bits.Len64(e.a[0].hi)+int(e.a[1].val) <= int(e.w) {
				e.lo, e.hi = e.a[0].lo<<e.a[1].val, e.a[0].hi<<e.a[1].val
			}
		}
	case OConcat:
		lw := e.a[1].w
		e.lo = e.a[0].lo<<lw | e.a[1].lo
		if e.a[0].lo != e.a[0].hi {
			e.lo = e.a[0].lo << lw
			e.hi = e.a[0].hi<<lw | mask(lw)
		} else {
			e.hi = e.a[0].hi<<lw | e.a[1].hi
		}
	case OExtract:
		if e.aux == 0 && e.a[0].hi <= m {
			e.lo, e.hi = e.a[0].lo, e.a[0].hi
		} else if e.aux > 0 {
			h := e.a[0].hi >> e.aux
			if h <= m {
				e.lo, e.hi = e.a[0].lo>>e.aux, h
			}
		}
	}
}

func Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	if v < 256 && smallConst[w][v] != nil {
		return smallConst[w][v]
	}
	return intern(exprKey{op: OConst, w: w, val: v})
}

func Bool(b bool) *Expr {
	if b {
		return True
	}
	return False
}

func Var(name string, w uint8) *Expr {
	return intern(exprKey{op: OVar, w: w, name: name})
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e == True }
func (e *Expr) isFalse() bool { return e == False }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func mk(op Op, w uint8, a ...*Expr) *Expr {
	k := exprKey{op: op, w: w}
	copy(k.a[:], a)
	return intern(k)
}

// ---- boolean constructors

func Not(a *Expr) *Expr {
	if a.w != 0 {
		panic("Not on bv")
	}
	switch a.op {
	case OConst:
		return Bool(a.val == 0)
	case OBNot:
		return a.a[0]
	case OULt:
		return ULe(a.a[1], a.a[0])
	case OULe:
		return ULt(a.a[1], a.a[0])
	case OSLt:
		return SLe(a.a[1], a.a[0])
	case OSLe:
		return SLt(a.a[1], a.a[0])
	}
	return mk(OBNot, 0, a)
}

func And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return False
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if Not(a) == b {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBAnd, 0, a, b)
}

func Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return True
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if Not(a) == b {
		return True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBOr, 0, a, b)
}

func Implies(a, b *Expr) *Expr { return Or(Not(a), b) }

func Ite(c, a, b *Expr) *Expr {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.w, c, a, b)
}

// factor: a = x*c for a constant c, and the product does not wrap.
func factor(a *Expr) (x *Expr, c uint64, ok bool) {
	if a.op != OMul || !a.a[1].isConst() || a.a[1].val == 0 {
		return nil, 0, false
	}
	c = a.a[1].val
	if h, l := bits.Mul64(a.a[0].hi, c); h != 0 || l > mask(a.w) {
		return nil, 0, false
	}
	return a.a[0], c, true
}

// sameFactor: a = x*c and b = y*c (+ the same constant) for one constant c,
// and neither product wraps.
func sameFactor(a, b *Expr) (x, y *Expr, ok bool) {
	if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && a.a[1] == b.a[1] {
		k := a.a[1].val
		if s, c := bits.Add64(a.a[0].hi, k, 0); c != 0 || s > mask(a.w) {
			return nil, nil, false
		}
		if s, c := bits.Add64(b.a[0].hi, k, 0); c != 0 || s > mask(a.w) {
			return nil, nil, false
		}
		a, b = a.a[0], b.a[0]
	}
	if a.op != OMul || b.op != OMul || !a.a[1].isConst() || a.a[1] != b.a[1] || a.a[1].val == 0 {
		return nil, nil, false
	}
	c := a.a[1].val
	for _, t := range []*Expr{a.a[0], b.a[0]} {
		if h, l := bits.Mul64(t.hi, c); h != 0 || l > mask(a.w) {
			return nil, nil, false
		}
	}
	return a.a[0], b.a[0], true
}

func Eq(a, b *Expr) *Expr {
	if a == b {
		return True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	} else {
		if a.isConst() {
			a, b = b, a
		}
		if a.isConst() && b.isConst() {
			return Bool(a.val == b.val)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return False
		}
		if b.isConst() {
			switch a.op {
			case OZExt:
				if b.val > mask(a.a[0].w) {
					return False
				}
				return Eq(a.a[0], Const(a.a[0].w, b.val))
			case OSExt:
				t := Const(a.a[0].w, b.val)
				if uint64(sx(t.val, t.w))&mask(a.w) != b.val {
					return False
				}
				return Eq(a.a[0], t)
			case OConcat:
				lw := a.a[1].w
				return And(Eq(a.a[0], Const(a.a[0].w, b.val>>lw)), Eq(a.a[1], Const(lw, b.val)))
			case OAdd:
				if a.a[1].isConst() {
					return Eq(a.a[0], Const(a.w, b.val-a.a[1].val))
				}
			case OXor:
				if a.a[1].isConst() {
					return Eq(a.a[0], Const(a.w, b.val^a.a[1].val))
				}
			case OSub:
				if b.val == 0 {
					return Eq(a.a[0], a.a[1])
				}
			case ONot:
				return Eq(a.a[0], Const(a.w, ^b.val))
			case ONeg:
				return Eq(a.a[0], Const(a.w, -b.val))
			case OIte:
				x, y := a.a[1], a.a[2]
				if x.isConst() || y.isConst() {
					return Ite(a.a[0], Eq(x, b), Eq(y, b))
				}
			case OMul:
				if a.a[1].isConst() && a.a[1].val != 0 {
					h, _ := bits.Mul64(a.a[0].hi, a.a[1].val)
					if h == 0 && a.a[0].hi*a.a[1].val <= mask(a.w) {
						if b.val%a.a[1].val != 0 {
							return False
						}
						return Eq(a.a[0], Const(a.w, b.val/a.a[1].val))
					}
				}
			}
		}
		if x, y, ok := sameFactor(a, b); ok {
			return Eq(x, y)
		}
		if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
			return Eq(a.a[0], b.a[0])
		}
		if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
			return Eq(a.a[0], b.a[0])
		}
		if a.op == OConcat && b.op == OConcat && a.a[0].w == b.a[0].w {
			return And(Eq(a.a[0], b.a[0]), Eq(a.a[1], b.a[1]))
		}
		if a.op == OAdd && b.op == OAdd {
			if a.a[1] == b.a[1] {
				return Eq(a.a[0], b.a[0])
			}
			if a.a[0] == b.a[0] {
				return Eq(a.a[1], b.a[1])
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(OEq, 0, a, b)
}

func ULt(a, b *Expr) *Expr {
	if a == b {
		return False
	}
	if a.hi < b.lo {
		return True
	}
	if a.lo >= b.hi {
		return False
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return ULt(a.a[0], b.a[0])
	}
	if a.op == OZExt && b.isConst() && b.val <= mask(a.a[0].w) {
		return ULt(a.a[0], Const(a.a[0].w, b.val))
	}
	if b.op == OZExt && a.isConst() && a.val <= mask(b.a[0].w) {
		return ULt(Const(b.a[0].w, a.val), b.a[0])
	}
	if b.isConst() && b.val == 1 {
		return Eq(a, Const(a.w, 0))
	}
	if a.isConst() && a.val == 0 {
		return Not(Eq(b, a))
	}
	if x, y, ok := sameFactor(a, b); ok {
		return ULt(x, y)
	}
	if x, c, ok := factor(a); ok && b.isConst() { // x*c < b
		q := b.val / c
		if b.val%c != 0 {
			q++
		}
		if q > mask(a.w) {
			return True
		}
		return ULt(x, Const(a.w, q))
	}
	if y, c, ok := factor(b); ok && a.isConst() { // a < y*c
		return ULt(Const(a.w, a.val/c), y)
	}
	return mk(OULt, 0, a, b)
}

func ULe(a, b *Expr) *Expr {
	if a == b {
		return True
	}
	if a.hi <= b.lo {
		return True
	}
	if a.lo > b.hi {
		return False
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return ULe(a.a[0], b.a[0])
	}
	if a.op == OZExt && b.isConst() && b.val <= mask(a.a[0].w) {
		return ULe(a.a[0], Const(a.a[0].w, b.val))
	}
	if b.op == OZExt && a.isConst() && a.val <= mask(b.a[0].w) {
		return ULe(Const(b.a[0].w, a.val), b.a[0])
	}
	if b.isConst() && b.val == 0 {
		return Eq(a, b)
	}
	if _, _, ok := sameFactor(a, b); ok {
		return Not(ULt(b, a))
	}
	if _, _, ok := factor(a); ok && b.isConst() {
		return Not(ULt(b, a))
	}
	if _, _, ok := factor(b); ok && a.isConst() {
		return Not(ULt(b, a))
	}
	return mk(OULe, 0, a, b)
}

func nonneg(a *Expr) bool { return a.hi < uint64(1)<<(a.w-1) }
func isneg(a *Expr) bool  { return a.lo >= uint64(1)<<(a.w-1) }

// signed range of a
func srange(a *Expr) (int64, int64) {
	if nonneg(a) || isneg(a) {
		return sx(a.lo, a.w), sx(a.hi, a.w)
	}
	if a.op == OSExt {
		return srange(a.a[0])
	}
	if a.op == OIte {
		l1, h1 := srange(a.a[1])
		l2, h2 := srange(a.a[2])
		return min(l1, l2), max(h1, h2)
	}
	w := a.w
	if a.op == OSub && w == 64 && nonneg(a.a[0]) && nonneg(a.a[1]) {
		return int64(a.a[0].lo) - int64(a.a[1].hi), int64(a.a[0].hi) - int64(a.a[1].lo)
	}
	if (a.op == OAdd || a.op == OSub) && a.depth < 40 {
		l1, h1 := srange(a.a[0])
		l2, h2 := srange(a.a[1])
		if a.op == OSub {
			if l2 == -1<<63 || h2 == -1<<63 {
				goto full
			}
			l2, h2 = -h2, -l2
		}
		lo, hi := l1+l2, h1+h2
		// overflow in int64
		if (l1 < 0 && l2 < 0 && lo >= 0) || (l1 >= 0 && l2 >= 0 && lo < 0) || (h1 < 0 && h2 < 0 && hi >= 0) || (h1 >= 0 && h2 >= 0 && hi < 0) {
			goto full
		}
		mn, mx := int64(-1)<<(w-1), int64(uint64(1)<<(w-1)-1)
		if lo >= mn && hi <= mx {
			return lo, hi
		}
	}
	if a.op == OMul && a.a[1].isConst() && a.depth < 40 {
		l1, h1 := srange(a.a[0])
		c := sx(a.a[1].val, w)
		if c > 0 {
			mn, mx := int64(-1)<<(w-1), int64(uint64(1)<<(w-1)-1)
			if l1 >= mn/c && h1 <= mx/c {
				return l1 * c, h1 * c
			}
		}
	}
	if a.op == OSDiv && a.a[1].isConst() && a.depth < 40 {
		c := sx(a.a[1].val, w)
		if c > 0 {
			l1, h1 := srange(a.a[0])
			return l1 / c, h1 / c
		}
	}
full:
	return int64(-1) << (w - 1), int64(uint64(1)<<(w-1) - 1)
}

func SLt(a, b *Expr) *Expr {
	if a == b {
		return False
	}
	if a.isConst() && b.isConst() {
		return Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	la, ha := srange(a)
	lb, hb := srange(b)
	if ha < lb {
		return True
	}
	if la >= hb {
		return False
	}
	if nonneg(a) && nonneg(b) {
		return ULt(a, b)
	}
	if r := scmpReduce(a, b, true); r != nil {
		return r
	}
	return mk(OSLt, 0, a, b)
}

func SLe(a, b *Expr) *Expr {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	la, ha := srange(a)
	lb, hb := srange(b)
	if ha <= lb {
		return True
	}
	if la > hb {
		return False
	}
	if nonneg(a) && nonneg(b) {
		return ULe(a, b)
	}
	if r := scmpReduce(a, b, false); r != nil {
		return r
	}
	return mk(OSLe, 0, a, b)
}

func scmpReduce(a, b *Expr, lt bool) *Expr {
	f := SLe
	if lt {
		f = SLt
	}
	if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return f(a.a[0], b.a[0])
	}
	if a.op == OSExt && b.isConst() {
		t := Const(a.a[0].w, b.val)
		if uint64(sx(t.val, t.w))&mask(a.w) == b.val {
			return f(a.a[0], t)
		}
	}
	if b.op == OSExt && a.isConst() {
		t := Const(b.a[0].w, a.val)
		if uint64(sx(t.val, t.w))&mask(b.w) == a.val {
			return f(t, b.a[0])
		}
	}
	// (x*c) < d for small x : keep
	return nil
}

// ---- arithmetic

func Add(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return Add(a.a[0], Const(a.w, a.a[1].val+b.val))
		}
		if a.op == OSub && a.a[0].isConst() {
			return Sub(Const(a.w, a.a[0].val+b.val), a.a[1])
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return Ite(a.a[0], Add(a.a[1], b), Add(a.a[2], b))
		}
		return mk(OAdd, a.w, a, b)
	}
	if a.op == OAdd && a.a[1].isConst() {
		return Add(Add(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isConst() {
		return Add(Add(a, b.a[0]), b.a[1])
	}
	if a.op == OSub && a.a[1] == b {
		return a.a[0]
	}
	if b.op == OSub && b.a[1] == a {
		return b.a[0]
	}
	if a.op == ONeg {
		return Sub(b, a.a[0])
	}
	if b.op == ONeg {
		return Sub(a, b.a[0])
	}
	if a.op == OMul && b.op == OMul && a.a[1].isConst() && a.a[1] == b.a[1] {
		return Mul(Add(a.a[0], b.a[0]), a.a[1])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAdd, a.w, a, b)
}

func Sub(a, b *Expr) *Expr {
	if a == b {
		return Const(a.w, 0)
	}
	if b.isConst() {
		return Add(a, Const(a.w, -b.val))
	}
	if a.op == OAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
		if a.a[1].isConst() {
			return Add(Sub(a.a[0], b), a.a[1])
		}
	}
	if b.op == OAdd {
		if b.a[0] == a {
			return Neg(b.a[1])
		}
		if b.a[1] == a {
			return Neg(b.a[0])
		}
		if b.a[1].isConst() {
			return Add(Sub(a, b.a[0]), Const(a.w, -b.a[1].val))
		}
	}
	if a.isConst() && a.val == 0 {
		return Neg(b)
	}
	if a.op == OMul && b.op == OMul && a.a[1].isConst() && a.a[1] == b.a[1] {
		return Mul(Sub(a.a[0], b.a[0]), a.a[1])
	}
	if b.op == ONeg {
		return Add(a, b.a[0])
	}
	if a.op == OAdd && b.op == OAdd {
		if a.a[0] == b.a[0] {
			return Sub(a.a[1], b.a[1])
		}
		if a.a[1] == b.a[1] {
			return Sub(a.a[0], b.a[0])
		}
		if a.a[0] == b.a[1] {
			return Sub(a.a[1], b.a[0])
		}
		if a.a[1] == b.a[0] {
			return Sub(a.a[0], b.a[1])
		}
	}
	return mk(OSub, a.w, a, b)
}

func Neg(a *Expr) *Expr {
	if a.isConst() {
		return Const(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	if a.op == OSub {
		return Sub(a.a[1], a.a[0])
	}
	return mk(ONeg, a.w, a)
}

func Mul(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case bits.OnesCount64(b.val) == 1:
			return Shl(a, Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		case b.val == mask(a.w):
			return Neg(a)
		}
		if a.op == OMul && a.a[1].isConst() {
			return Mul(a.a[0], Const(a.w, a.a[1].val*b.val))
		}
		if a.op == OAdd && a.a[1].isConst() {
			return Add(Mul(a.a[0], b), Const(a.w, a.a[1].val*b.val))
		}
		return mk(OMul, a.w, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.w, a, b)
}

func UDiv(a, b *Expr) *Expr {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return Const(a.w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return LShr(a, Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.hi < b.val {
			return Const(a.w, 0)
		}
		if a.op == OMul && a.a[1].isConst() {
			h, l := bits.Mul64(a.a[0].hi, a.a[1].val)
			if h == 0 && l <= mask(a.w) {
				if a.a[1].val%b.val == 0 {
					return Mul(a.a[0], Const(a.w, a.a[1].val/b.val))
				}
				if b.val%a.a[1].val == 0 {
					return UDiv(a.a[0], Const(a.w, b.val/a.a[1].val))
				}
			}
		}
		if a.op == OAdd && a.a[1].isConst() && a.a[0].op == OMul && a.a[0].a[1].isConst() && a.a[0].a[1].val%b.val == 0 {
			// (x*kc + d)/c with no overflow = x*k + d/c
			x := a.a[0]
			h, l := bits.Mul64(x.a[0].hi, x.a[1].val)
			s := l + a.a[1].val
			if h == 0 && l <= mask(a.w) && s >= l && s <= mask(a.w) {
				return Add(UDiv(x, b), Const(a.w, a.a[1].val/b.val))
			}
		}
		if a.op == OUDiv && a.a[1].isConst() {
			h, l := bits.Mul64(a.a[1].val, b.val)
			if h == 0 && l <= mask(a.w) {
				return UDiv(a.a[0], Const(a.w, l))
			}
		}
		if a.op == OZExt && b.val <= mask(a.a[0].w) {
			return ZExt(UDiv(a.a[0], Const(a.a[0].w, b.val)), a.w)
		}
		// narrow
		if a.w == 64 && a.hi <= mask(32) && b.val <= mask(32) {
			return ZExt(UDiv(Extract(a, 31, 0), Const(32, b.val)), 64)
		}
	}
	return mk(OUDiv, a.w, a, b)
}

func URem(a, b *Expr) *Expr {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return Const(a.w, a.val%b.val)
		}
		if bits.OnesCount64(b.val) == 1 {
			return BAnd(a, Const(a.w, b.val-1))
		}
		if a.hi < b.val {
			return a
		}
		if a.op == OMul && a.a[1].isConst() && a.a[1].val%b.val == 0 {
			h, l := bits.Mul64(a.a[0].hi, a.a[1].val)
			if h == 0 && l <= mask(a.w) {
				return Const(a.w, 0)
			}
		}
		if a.op == OZExt && b.val <= mask(a.a[0].w) {
			return ZExt(URem(a.a[0], Const(a.a[0].w, b.val)), a.w)
		}
		if a.w == 64 && a.hi <= mask(32) && b.val <= mask(32) {
			return ZExt(URem(Extract(a, 31, 0), Const(32, b.val)), 64)
		}
	}
	return mk(OURem, a.w, a, b)
}

func SDiv(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.val != 0 {
		return Const(a.w, uint64(sdivc(sx(a.val, a.w), sx(b.val, b.w))))
	}
	if nonneg(a) && nonneg(b) {
		return UDiv(a, b)
	}
	if b.isConst() && b.val == 1 {
		return a
	}
	if b.isConst() && a.op == OMul && a.a[1].isConst() {
		c := sx(a.a[1].val, a.w)
		d := sx(b.val, a.w)
		if d > 0 && c > 0 && c%d == 0 {
			l, h := srange(a.a[0])
			mn, mx := int64(-1)<<(a.w-1), int64(uint64(1)<<(a.w-1)-1)
			if l >= mn/c && h <= mx/c {
				return Mul(a.a[0], Const(a.w, uint64(c/d)))
			}
		}
	}
	if a.op == OSExt && b.isConst() {
		t := Const(a.a[0].w, b.val)
		if uint64(sx(t.val, t.w))&mask(a.w) == b.val && sx(t.val, t.w) > 0 {
			return SExt(SDiv(a.a[0], t), a.w)
		}
	}
	return mk(OSDiv, a.w, a, b)
}

func sdivc(a, b int64) int64 {
	if b == -1 {
		return -a
	}
	return a / b
}

func SRem(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.val != 0 {
		y := sx(b.val, b.w)
		if y == -1 {
			return Const(a.w, 0)
		}
		return Const(a.w, uint64(sx(a.val, a.w)%y))
	}
	if nonneg(a) && nonneg(b) {
		return URem(a, b)
	}
	return mk(OSRem, a.w, a, b)
}

// ---- bit segments: a term seen as a concatenation of pieces

type seg struct {
	e  *Expr // nil = zeros
	lo uint8 // position
	w  uint8
}

// segments returns the pieces of e, low first, or nil when e is atomic.
func segments(e *Expr, base uint8, out []seg) []seg {
	switch e.op {
	case OConcat:
		out = segments(e.a[1], base, out)
		return segments(e.a[0], base+e.a[1].w, out)
	case OZExt:
		out = segments(e.a[0], base, out)
		return append(out, seg{nil, base + e.a[0].w, e.w - e.a[0].w})
	case OConst:
		if e.val == 0 {
			return append(out, seg{nil, base, e.w})
		}
	}
	return append(out, seg{e, base, e.w})
}

func segsToExpr(ss []seg) *Expr {
	var r *Expr
	for _, s := range ss {
		x := s.e
		if x == nil {
			x = Const(s.w, 0)
		}
		if r == nil {
			r = x
		} else {
			r = Concat(x, r)
		}
	}
	return r
}

// mergeSegs merges a and b when at every bit at least one is zero.
func mergeSegs(a, b *Expr) *Expr {
	if a.op != OConcat && a.op != OZExt && a.op != OConst || b.op != OConcat && b.op != OZExt && b.op != OConst {
		return nil
	}
	var bufa, bufb [16]seg
	sa, sb := segments(a, 0, bufa[:0]), segments(b, 0, bufb[:0])
	var out []seg
	i, j := 0, 0
	var pos uint8
	for pos < a.w {
		x, y := sa[i], sb[j]
		ex, ey := x.lo+x.w, y.lo+y.w
		end := min(ex, ey)
		var piece *Expr
		if x.e != nil && y.e != nil {
			if x.e.isConst() && y.e.isConst() {
				vx := x.e.val >> (pos - x.lo)
				vy := y.e.val >> (pos - y.lo)
				piece = Const(end-pos, vx|vy)
			} else {
				return nil
			}
		} else if x.e != nil {
			piece = Extract(x.e, end-1-x.lo, pos-x.lo)
		} else if y.e != nil {
			piece = Extract(y.e, end-1-y.lo, pos-y.lo)
		}
		out = append(out, seg{piece, pos, end - pos})
		pos = end
		if ex == end {
			i++
		}
		if ey == end {
			j++
		}
	}
	return segsToExpr(out)
}

func BOr(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, a.val|b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	if r := mergeSegs(a, b); r != nil {
		return r
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(OOr, a.w, a, b)
}

func BXor(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return BNot(a)
		}
		if a.op == OXor && a.a[1].isConst() {
			return BXor(a.a[0], Const(a.w, a.a[1].val^b.val))
		}
	}
	if a == b {
		return Const(a.w, 0)
	}
	if r := mergeSegs(a, b); r != nil && (!a.isConst() && !b.isConst()) {
		return r
	}
	if a.op == OXor && a.a[1].isConst() && !b.isConst() {
		return BXor(BXor(a.a[0], b), a.a[1])
	}
	if b.op == OXor && b.a[1].isConst() && !a.isConst() {
		return BXor(BXor(a, b.a[0]), b.a[1])
	}
	if a.op == OXor && (a.a[0] == b || a.a[1] == b) {
		if a.a[0] == b {
			return a.a[1]
		}
		return a.a[0]
	}
	if b.op == OXor && (b.a[0] == a || b.a[1] == a) {
		if b.a[0] == a {
			return b.a[1]
		}
		return b.a[0]
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(OXor, a.w, a, b)
}

func BAnd(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return Const(a.w, a.val&b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		// contiguous mask from bit 0
		if n := bits.OnesCount64(b.val); bits.Len64(b.val) == n {
			if a.hi <= b.val {
				return a
			}
			return ZExt(Extract(a, uint8(n-1), 0), a.w)
		}
		// contiguous mask shifted
		tz := bits.TrailingZeros64(b.val)
		if n := bits.OnesCount64(b.val >> tz); bits.Len64(b.val>>tz) == n {
			x := Extract(a, uint8(tz+n-1), uint8(tz))
			r := Concat(x, Const(uint8(tz), 0))
			return ZExt(r, a.w)
		}
	}
	if a == b {
		return a
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(OAnd, a.w, a, b)
}

func BNot(a *Expr) *Expr {
	if a.isConst() {
		return Const(a.w, ^a.val)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return mk(ONot, a.w, a)
}

func Shl(a, b *Expr) *Expr {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(a.w, 0)
		}
		if a.isConst() {
			return Const(a.w, a.val<<b.val)
		}
		n := uint8(b.val)
		return Concat(Extract(a, a.w-1-n, 0), Const(n, 0))
	}
	return mk(OShl, a.w, a, b)
}

func LShr(a, b *Expr) *Expr {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(a.w, 0)
		}
		if a.isConst() {
			return Const(a.w, a.val>>b.val)
		}
		n := uint8(b.val)
		return ZExt(Extract(a, a.w-1, n), a.w)
	}
	return mk(OLShr, a.w, a, b)
}

func AShr(a, b *Expr) *Expr {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		n := b.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if a.isConst() {
			return Const(a.w, uint64(sx(a.val, a.w)>>n))
		}
		return SExt(Extract(a, a.w-1, uint8(n)), a.w)
	}
	return mk(OAShr, a.w, a, b)
}

func Concat(hi, lo *Expr) *Expr {
	if hi == nil || hi.w == 0 {
		panic("concat")
	}
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return Const(w, hi.val<<lo.w|lo.val)
	}
	if hi.isConst() && hi.val == 0 {
		return ZExt(lo, w)
	}
	if hi.op == OZExt {
		return ZExt(Concat(hi.a[0], lo), w)
	}
	// merge adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] && hi.aux == lo.aux+lo.w {
		return Extract(hi.a[0], hi.aux+hi.w-1, lo.aux)
	}
	if hi.op == OExtract && lo.op == OConcat && lo.a[0].op == OExtract && lo.a[0].a[0] == hi.a[0] && hi.aux == lo.a[0].aux+lo.a[0].w {
		return Concat(Extract(hi.a[0], hi.aux+hi.w-1, lo.a[0].aux), lo.a[1])
	}
	if hi.op == OExtract && hi.a[0] == lo && hi.aux == lo.w {
		return Extract(lo, hi.aux+hi.w-1, 0) // cannot happen
	}
	// right-assoc: ((a.b).c) -> (a.(b.c))
	if hi.op == OConcat {
		return Concat(hi.a[0], Concat(hi.a[1], lo))
	}
	if hi.isConst() && lo.op == OConcat && lo.a[0].isConst() {
		return Concat(Const(hi.w+lo.a[0].w, hi.val<<lo.a[0].w|lo.a[0].val), lo.a[1])
	}
	return mk(OConcat, w, hi, lo)
}

func Extract(a *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return Const(w, a.val>>lo)
	case OExtract:
		return Extract(a.a[0], hi+a.aux, lo+a.aux)
	case OConcat:
		lw := a.a[1].w
		if hi < lw {
			return Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.a[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.a[0], hi-lw, 0), Extract(a.a[1], lw-1, lo))
	case OZExt:
		iw := a.a[0].w
		if hi < iw {
			return Extract(a.a[0], hi, lo)
		}
		if lo >= iw {
			return Const(w, 0)
		}
		return ZExt(Extract(a.a[0], iw-1, lo), w)
	case OSExt:
		iw := a.a[0].w
		if hi < iw {
			return Extract(a.a[0], hi, lo)
		}
		if lo < iw {
			return SExt(Extract(a.a[0], iw-1, lo), w)
		}
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() || a.depth < 6 {
			return Ite(a.a[0], Extract(a.a[1], hi, lo), Extract(a.a[2], hi, lo))
		}
	case OXor:
		return BXor(Extract(a.a[0], hi, lo), Extract(a.a[1], hi, lo))
	case OAnd:
		return BAnd(Extract(a.a[0], hi, lo), Extract(a.a[1], hi, lo))
	case OOr:
		return BOr(Extract(a.a[0], hi, lo), Extract(a.a[1], hi, lo))
	case ONot:
		return BNot(Extract(a.a[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && (a.a[1].isConst() || a.depth < 8) {
			x, y := Extract(a.a[0], hi, 0), Extract(a.a[1], hi, 0)
			switch a.op {
			case OAdd:
				return Add(x, y)
			case OSub:
				return Sub(x, y)
			case OMul:
				return Mul(x, y)
			}
		}
	}
	if lo > 0 && a.hi>>lo == 0 {
		return Const(w, 0)
	}
	return intern(exprKey{op: OExtract, w: w, aux: lo, a: [3]*Expr{a}})
}

func ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return Extract(a, w-1, 0)
	}
	switch a.op {
	case OConst:
		return Const(w, a.val)
	case OZExt:
		return ZExt(a.a[0], w)
	case OIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return Ite(a.a[0], ZExt(a.a[1], w), ZExt(a.a[2], w))
		}
	case OExtract:
		// value-preserving truncation
		if a.aux == 0 && a.a[0].w == w && a.a[0].hi <= mask(a.w) {
			return a.a[0]
		}
	}
	return mk(OZExt, w, a)
}

func SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return Extract(a, w-1, 0)
	}
	switch a.op {
	case OConst:
		return Const(w, uint64(sx(a.val, a.w)))
	case OSExt:
		return SExt(a.a[0], w)
	case OZExt:
		return ZExt(a.a[0], w)
	case OIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return Ite(a.a[0], SExt(a.a[1], w), SExt(a.a[2], w))
		}
	case OExtract:
		if a.aux == 0 && a.a[0].w == w {
			l, h := srange(a.a[0])
			if l >= int64(-1)<<(a.w-1) && h <= int64(uint64(1)<<(a.w-1)-1) {
				return a.a[0]
			}
		}
	}
	if nonneg(a) {
		return ZExt(a, w)
	}
	return mk(OSExt, w, a)
}

// BoolToBV turns a boolean into 0/1 of width w
func BoolToBV(b *Expr, w uint8) *Expr { return Ite(b, Const(w, 1), Const(w, 0)) }

func (e *Expr) String() string {
	var sb strings.Builder
	e.str(&sb, 0)
	return sb.String()
}

func (e *Expr) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("…")
		return
	}
	switch e.op {
	case OConst:
		if e.w == 0 {
			fmt.Fprintf(sb, "%v", e.val == 1)
		} else {
			fmt.Fprintf(sb, "%d:%d", e.val, e.w)
		}
	case OVar:
		sb.WriteString(e.name)
	default:
		fmt.Fprintf(sb, "(%s", opName[e.op])
		if e.op == OExtract {
			fmt.Fprintf(sb, "[%d:%d]", e.aux+e.w-1, e.aux)
		}
		if e.op == OZExt || e.op == OSExt {
			fmt.Fprintf(sb, "%d", e.w)
		}
		for _, c := range e.a {
			if c != nil {
				sb.WriteByte(' ')
				c.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}
