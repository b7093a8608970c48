package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Str is an immutable string of concrete length; b is nil when the contents are concrete.
type Str struct {
	s string
	b []*Expr
}

func CStr(s string) Str { return Str{s: s} }

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) At(i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return smallConst[8][s.s[i]]
}

func (s Str) Slice(i, j int) Str {
	if s.b != nil {
		return normStr(s.b[i:j:j])
	}
	return Str{s: s.s[i:j]}
}

func (s Str) Bytes() []*Expr {
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := range r {
		r[i] = smallConst[8][s.s[i]]
	}
	return r
}

func (s Str) conc() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

// normStr makes a concrete Str when all bytes are constants.
func normStr(b []*Expr) Str {
	for _, x := range b {
		if x.op != OConst {
			return Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.val)
	}
	return Str{s: string(r)}
}

type Ptr struct {
	obj int32
	off int32
}

type SliceV struct {
	obj    int32
	off    int32 // slot offset of element 0
	stride int32
	len    int32
	cap    int32
}

type Iface struct {
	t types.Type // nil for a nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	// bound builtin / intrinsic
	builtin *ssa.Builtin
}

type MapV struct{ obj int32 }
type ChanV struct{ obj int32 }

// Agg is a struct or array value, flattened.
type Agg []Value

type Tuple []Value

type Poison struct{ why string }

// Opaque is an engine-internal value (iterators and the like).
type Opaque struct{ v interface{} }

type objKind uint8

const (
	kData objKind = iota
	kMap
	kChan
)

type mapEntry struct {
	k, v Value
}

type Object struct {
	kind  objKind
	typ   types.Type
	slots []Value
	own   *owner
	// maps
	ents []mapEntry
	idx  map[interface{}]int // concrete keys only; nil when some key is symbolic
	symK bool
	// channels
	ccap   int
	buf    []Value
	closed bool
	recvW  int
	offers []*offer
	name   string
	shadow *shadow
}

type offer struct {
	v     Value
	taken bool
}

type owner struct{ _ int }

func (o *Object) clone(own *owner) *Object {
	n := *o
	n.own = own
	n.slots = append([]Value(nil), o.slots...)
	if o.kind == kMap {
		n.ents = append([]mapEntry(nil), o.ents...)
		if o.idx != nil {
			n.idx = make(map[interface{}]int, len(o.idx))
			for k, v := range o.idx {
				n.idx[k] = v
			}
		}
	}
	if o.kind == kChan {
		n.buf = append([]Value(nil), o.buf...)
		n.offers = nil
		for _, f := range o.offers {
			c := *f
			n.offers = append(n.offers, &c)
		}
	}
	if o.shadow != nil {
		n.shadow = o.shadow.clone()
	}
	return &n
}

// ---- layout

var layoutMu sync.RWMutex
var slotCache = map[types.Type]int{}
var fieldOffCache = map[*types.Struct][]int{}

func slotsOf(t types.Type) int {
	layoutMu.RLock()
	n, ok := slotCache[t]
	layoutMu.RUnlock()
	if ok {
		return n
	}
	n = 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += slotsOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * slotsOf(u.Elem())
	case *types.Basic:
		if u.Kind() == types.Complex64 || u.Kind() == types.Complex128 {
			n = 1
		}
	}
	layoutMu.Lock()
	slotCache[t] = n
	layoutMu.Unlock()
	return n
}

func fieldOffs(s *types.Struct) []int {
	layoutMu.RLock()
	o, ok := fieldOffCache[s]
	layoutMu.RUnlock()
	if ok {
		return o
	}
	off := 0
	o = make([]int, s.NumFields()+1)
	for i := 0; i < s.NumFields(); i++ {
		o[i] = off
		off += slotsOf(s.Field(i).Type())
	}
	o[s.NumFields()] = off
	layoutMu.Lock()
	fieldOffCache[s] = o
	layoutMu.Unlock()
	return o
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func widthOf(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return Poison{"complex"}
		}
		return Const(widthOf(u), 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct, *types.Array:
		a := make(Agg, 0, slotsOf(t))
		return zeroSlots(t, a)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroValue(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zeroValue %v", t))
}

func zeroSlots(t types.Type, out Agg) Agg {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		if !isAggType(u.Elem()) {
			z := zeroValue(u.Elem())
			for i := 0; i < n; i++ {
				out = append(out, z)
			}
			return out
		}
		for i := 0; i < n; i++ {
			out = zeroSlots(u.Elem(), out)
		}
		return out
	}
	return append(out, zeroValue(t))
}
