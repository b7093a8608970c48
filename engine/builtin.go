package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) builtin(fr *Frame, name string, args []Value, call *ssa.CallCommon, rt types.Type) Value {
	st := w.st
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return Const(64, uint64(x.Len()))
		case SliceV:
			return Const(64, uint64(x.len))
		case MapV:
			if x.obj == 0 {
				return Const(64, 0)
			}
			o := st.get(x.obj)
			w.access(o, x.obj, 0, 1, false)
			return Const(64, uint64(len(o.ents)))
		case ChanV:
			if x.obj == 0 {
				return Const(64, 0)
			}
			return Const(64, uint64(len(st.get(x.obj).buf)))
		case Agg:
			at := call.Args[0].Type().Underlying().(*types.Array)
			return Const(64, uint64(at.Len()))
		case Ptr:
			at := deref(call.Args[0].Type()).Underlying().(*types.Array)
			return Const(64, uint64(at.Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return Const(64, uint64(x.cap))
		case ChanV:
			if x.obj == 0 {
				return Const(64, 0)
			}
			return Const(64, uint64(st.get(x.obj).ccap))
		}
	case "append":
		return w.appendOp(args, call)
	case "copy":
		dst := args[0].(SliceV)
		var n int32
		var src []Value
		switch s := args[1].(type) {
		case SliceV:
			n = min(dst.len, s.len)
			if n > 0 {
				o := st.get(s.obj)
				w.access(o, s.obj, int(s.off), int(n*s.stride), false)
				src = append([]Value(nil), o.slots[s.off:s.off+n*s.stride]...)
			}
		case Str:
			n = min(dst.len, int32(s.Len()))
			for i := 0; i < int(n); i++ {
				src = append(src, s.At(i))
			}
		}
		if n > 0 {
			o := st.getMut(dst.obj)
			w.access(o, dst.obj, int(dst.off), int(n*dst.stride), true)
			copy(o.slots[dst.off:], src)
		}
		return Const(64, uint64(n))
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return nil
		}
		i := w.findKey(m, args[1])
		o := st.getMut(m.obj)
		w.access(o, m.obj, 0, 1, true)
		if i >= 0 {
			w.mapDelete(o, i)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				o := st.getMut(x.obj)
				w.access(o, x.obj, 0, 1, true)
				o.ents = nil
				o.idx = map[interface{}]int{}
				o.symK = false
			}
		case SliceV:
			if x.len > 0 {
				o := st.getMut(x.obj)
				w.access(o, x.obj, int(x.off), int(x.len*x.stride), true)
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				z := zeroSlots(et, nil)
				for i := int32(0); i < x.len; i++ {
					copy(o.slots[x.off+i*x.stride:], z)
				}
			}
		}
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return w.doRecover(0)
	case "print", "println":
		return nil
	case "close":
		c := args[0].(ChanV)
		if c.obj == 0 {
			w.runtimePanic("close of nil channel")
		}
		o := st.getMut(c.obj)
		if o.closed {
			w.runtimePanic("close of closed channel")
		}
		w.hbRelease(c.obj)
		o.closed = true
		return nil
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		for _, y := range args[1:] {
			if s, ok := r.(Str); ok {
				lt := strLess(y.(Str), s)
				if name == "max" {
					lt = strLess(s, y.(Str))
				}
				if w.branch(lt) {
					r = y
				}
				continue
			}
			a, b := r.(*Expr), y.(*Expr)
			var lt *Expr
			switch {
			case isFloat(t):
				lt = FOp(OFLt, 0, b, a)
				if name == "max" {
					lt = FOp(OFLt, 0, a, b)
				}
			case isSigned(t):
				lt = SLt(b, a)
				if name == "max" {
					lt = SLt(a, b)
				}
			default:
				lt = ULt(b, a)
				if name == "max" {
					lt = ULt(a, b)
				}
			}
			r = Ite(lt, b, a)
		}
		return r
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == 0 {
			w.runtimePanic("value method called using nil pointer")
		}
		return p
	case "ssa:deferstack":
		return Opaque{nil}
	case "SliceData":
		s := args[0].(SliceV)
		return Ptr{s.obj, s.off}
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		b := w.newBytes(s.Bytes())
		return Ptr{b.obj, 0}
	case "String":
		p := args[0].(Ptr)
		n := w.concInt(args[1].(*Expr), true)
		if n == 0 {
			return Str{}
		}
		return normStr(w.bytesOf(SliceV{p.obj, p.off, 1, int32(n), int32(n)}))
	case "Slice":
		p := args[0].(Ptr)
		n := int32(w.concInt(args[1].(*Expr), true))
		et := deref(call.Args[0].Type())
		return SliceV{p.obj, p.off, int32(slotsOf(et)), n, n}
	case "Add":
		p := args[0].(Ptr)
		n := w.concInt(args[1].(*Expr), true)
		if n == 0 {
			return p
		}
		unsupported("unsafe.Add")
	}
	unsupported("builtin %s on %T", name, args[0])
	return nil
}

// doRecover implements recover() called from the frame skip levels below the top.
func (w *Worker) doRecover(skip int) Value {
	t := w.st.thread()
	n := len(t.frames) - 1 - skip
	fr := t.frames[n]
	if fr.isDefer && n > 0 {
		c := t.frames[n-1]
		if c.panic != nil && !c.panic.recovered {
			c.panic.recovered = true
			v := c.panic.val
			if i, ok := v.(Iface); ok {
				return i
			}
			return v
		}
	}
	return Iface{}
}

func (w *Worker) appendOp(args []Value, call *ssa.CallCommon) Value {
	st := w.st
	dst := args[0].(SliceV)
	var add []Value
	var stride int32 = 1
	var et types.Type
	if call != nil {
		et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		stride = int32(slotsOf(et))
	} else if dst.obj != 0 {
		stride = dst.stride
		et = st.get(dst.obj).typ
	}
	switch s := args[1].(type) {
	case SliceV:
		if s.len > 0 {
			o := st.get(s.obj)
			w.access(o, s.obj, int(s.off), int(s.len*s.stride), false)
			add = append(add, o.slots[s.off:s.off+s.len*s.stride]...)
			stride = s.stride
		} else if s.len == 0 || stride == 0 {
			if dst.obj == 0 {
				return dst
			}
			return dst
		}
	case Str:
		for i := 0; i < s.Len(); i++ {
			add = append(add, s.At(i))
		}
		if len(add) == 0 {
			return dst
		}
	default:
		unsupported("append %T", args[1])
	}
	if stride == 0 {
		n := dst
		n.len += args[1].(SliceV).len
		n.cap = max(n.cap, n.len)
		return n
	}
	cnt := int32(len(add)) / stride
	if dst.obj != 0 && dst.len+cnt <= dst.cap {
		o := st.getMut(dst.obj)
		at := dst.off + dst.len*stride
		w.access(o, dst.obj, int(at), len(add), true)
		copy(o.slots[at:], add)
		dst.len += cnt
		return dst
	}
	// grow as the runtime does, roughly; the capacity is not observable to the properties
	nl := dst.len + cnt
	nc := dst.cap * 2
	if dst.cap >= 256 {
		nc = dst.cap + (dst.cap+768)/4
	}
	if nc < nl {
		nc = nl
	}
	if stride == 1 && nc < 8 && et != nil {
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			nc = 8
		}
	}
	slots := make([]Value, 0, nc*stride)
	if dst.len > 0 {
		o := st.get(dst.obj)
		w.access(o, dst.obj, int(dst.off), int(dst.len*stride), false)
		slots = append(slots, o.slots[dst.off:dst.off+dst.len*stride]...)
	}
	slots = append(slots, add...)
	if et != nil {
		z := zeroSlots(et, nil)
		for int32(len(slots)) < nc*stride {
			slots = append(slots, z...)
		}
	} else {
		nc = nl
	}
	id := st.newObj(&Object{kind: kData, typ: et, slots: slots})
	return SliceV{id, 0, stride, nl, nc}
}

// ---- maps

// mapKey gives a comparable host key for a concrete key value.
func mapKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Expr:
		if x.isConst() {
			return x.val, true
		}
	case Str:
		if s, ok := x.conc(); ok {
			return s, true
		}
	case Ptr:
		return x, true
	case ChanV:
		return x, true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := mapKey(x.v)
		if ok {
			return [2]interface{}{typeID(x.t), k}, true
		}
	case Agg:
		s := ""
		for _, e := range x {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	}
	return nil, false
}

func typeID(t types.Type) string { return types.TypeString(t, nil) }

// findKey returns the index of the entry equal to k, or -1, forking as needed.
func (w *Worker) findKey(m MapV, k Value) int {
	o := w.st.get(m.obj)
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		w.runtimePanic("hash of unhashable type " + i.t.String())
	}
	hk, conc := mapKey(k)
	if conc && !o.symK {
		if i, ok := o.idx[hk]; ok {
			return i
		}
		return -1
	}
	for i := range o.ents {
		e := w.equal(o.ents[i].k, k)
		if e.isFalse() {
			continue
		}
		if w.branch(e) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapDelete(o *Object, i int) {
	o.ents = append(o.ents[:i:i], o.ents[i+1:]...)
	w.reindex(o)
}

func (w *Worker) reindex(o *Object) {
	o.idx = map[interface{}]int{}
	o.symK = false
	for i, e := range o.ents {
		hk, ok := mapKey(e.k)
		if !ok {
			o.symK = true
			o.idx = nil
			return
		}
		o.idx[hk] = i
	}
}

func (w *Worker) mapUpdate(m MapV, k, v Value) {
	if m.obj == 0 {
		panic(goPanic{Iface{t: w.p.rtErr, v: CStr("assignment to entry in nil map")}})
	}
	i := w.findKey(m, k)
	o := w.st.getMut(m.obj)
	w.access(o, m.obj, 0, 1, true)
	if i >= 0 {
		o.ents[i].v = v
		return
	}
	hk, conc := mapKey(k)
	if conc && !o.symK {
		o.idx[hk] = len(o.ents)
	} else {
		o.symK = true
		o.idx = nil
	}
	o.ents = append(o.ents, mapEntry{k, v})
}

func (w *Worker) lookup(fr *Frame, in *ssa.Lookup) Value {
	x := w.operand(fr, in.X)
	if s, ok := x.(Str); ok {
		idx := w.operand(fr, in.Index).(*Expr)
		w.boundsCheck(idx, s.Len(), in.Index.Type())
		if idx.isConst() {
			return s.At(int(idx.val))
		}
		vals := make([]Value, s.Len())
		for i := range vals {
			vals[i] = s.At(i)
		}
		if r := w.selectElem(vals, idx); r != nil {
			return r
		}
		return s.At(int(w.concInt(idx, false)))
	}
	m, ok := x.(MapV)
	if !ok {
		unsupported("lookup in %T", x)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	var v Value
	found := false
	if m.obj != 0 {
		i := w.findKey(m, w.operand(fr, in.Index))
		o := w.st.get(m.obj)
		w.access(o, m.obj, 0, 1, false)
		if i >= 0 {
			v, found = o.ents[i].v, true
		}
	}
	if !found {
		v = zeroValue(et)
	}
	if in.CommaOk {
		return Tuple{v, Bool(found)}
	}
	return v
}

// iterators are immutable: the register holds the current position in a fresh object
type mapIter struct {
	m    MapV
	keys []Value
}

type strIter struct{ s Str }

func (w *Worker) rangeIter(in *ssa.Range, x Value) Value {
	var h interface{}
	switch v := x.(type) {
	case MapV:
		it := &mapIter{m: v}
		if v.obj != 0 {
			o := w.st.get(v.obj)
			w.access(o, v.obj, 0, 1, false)
			for _, e := range o.ents {
				it.keys = append(it.keys, e.k)
			}
		}
		h = it
	case Str:
		h = &strIter{v}
	default:
		unsupported("range over %T", x)
	}
	id := w.st.newObj(&Object{kind: kData, slots: []Value{Opaque{h}, Const(64, 0)}})
	return Ptr{id, 0}
}

func (w *Worker) next(fr *Frame, in *ssa.Next) Value {
	p := w.operand(fr, in.Iter).(Ptr)
	o := w.st.get(p.obj)
	pos := int(o.slots[1].(*Expr).val)
	switch it := o.slots[0].(Opaque).v.(type) {
	case *strIter:
		if pos >= it.s.Len() {
			return Tuple{False, Const(64, 0), Const(32, 0)}
		}
		b := it.s.At(pos)
		n := 1
		var r *Expr
		if b.isConst() && b.val < 0x80 {
			r = ZExt(b, 32)
		} else if b.isConst() {
			var buf []byte
			for i := pos; i < it.s.Len() && i < pos+4; i++ {
				c := it.s.At(i)
				if !c.isConst() {
					endPath("bound", "symbolic bytes inside a multi-byte rune")
				}
				buf = append(buf, byte(c.val))
			}
			rr, sz := utf8.DecodeRune(buf)
			r, n = Const(32, uint64(rr)), sz
		} else {
			if w.branch(ULt(b, Const(8, 0x80))) {
				r = ZExt(b, 32)
			} else {
				r, n = w.symRune(it.s, pos)
			}
		}
		o = w.st.getMut(p.obj)
		o.slots[1] = Const(64, uint64(pos+n))
		return Tuple{True, Const(64, uint64(pos)), r}
	case *mapIter:
		for pos < len(it.keys) {
			k := it.keys[pos]
			pos++
			i := w.findKey(it.m, k)
			w.access(w.st.get(it.m.obj), it.m.obj, 0, 1, false)
			if i < 0 {
				continue
			}
			v := w.st.get(it.m.obj).ents[i].v
			o = w.st.getMut(p.obj)
			o.slots[1] = Const(64, uint64(pos))
			return Tuple{True, k, v}
		}
		tt := in.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zeroValue(t)
		}
		return Tuple{False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	unsupported("next")
	return nil
}

// symRune decodes a rune whose first byte is >= 0x80, following Go's decoding rules.
func (w *Worker) symRune(s Str, pos int) (*Expr, int) {
	bad := Const(32, 0xfffd)
	rem := s.Len() - pos
	b0 := s.At(pos)
	in := func(b *Expr, lo, hi uint64) *Expr {
		return And(ULe(Const(8, lo), b), ULe(b, Const(8, hi)))
	}
	cont := func(b *Expr) *Expr { return in(b, 0x80, 0xbf) }
	low := func(b *Expr, m uint64) *Expr { return ZExt(BAnd(b, Const(8, m)), 32) }
	if w.branch(in(b0, 0xc2, 0xdf)) {
		if rem < 2 || !w.branch(cont(s.At(pos+1))) {
			return bad, 1
		}
		return BOr(Shl(low(b0, 0x1f), Const(32, 6)), low(s.At(pos+1), 0x3f)), 2
	}
	if w.branch(in(b0, 0xe0, 0xef)) {
		if rem < 3 {
			return bad, 1
		}
		b1, b2 := s.At(pos+1), s.At(pos+2)
		lo := Ite(Eq(b0, Const(8, 0xe0)), Const(8, 0xa0), Const(8, 0x80))
		hi := Ite(Eq(b0, Const(8, 0xed)), Const(8, 0x9f), Const(8, 0xbf))
		ok := And(And(ULe(lo, b1), ULe(b1, hi)), cont(b2))
		if !w.branch(ok) {
			return bad, 1
		}
		return BOr(BOr(Shl(low(b0, 0xf), Const(32, 12)), Shl(low(b1, 0x3f), Const(32, 6))), low(b2, 0x3f)), 3
	}
	if w.branch(in(b0, 0xf0, 0xf4)) {
		if rem < 4 {
			return bad, 1
		}
		b1, b2, b3 := s.At(pos+1), s.At(pos+2), s.At(pos+3)
		lo := Ite(Eq(b0, Const(8, 0xf0)), Const(8, 0x90), Const(8, 0x80))
		hi := Ite(Eq(b0, Const(8, 0xf4)), Const(8, 0x8f), Const(8, 0xbf))
		ok := And(And(ULe(lo, b1), ULe(b1, hi)), And(cont(b2), cont(b3)))
		if !w.branch(ok) {
			return bad, 1
		}
		return BOr(BOr(Shl(low(b0, 7), Const(32, 18)), Shl(low(b1, 0x3f), Const(32, 12))), BOr(Shl(low(b2, 0x3f), Const(32, 6)), low(b3, 0x3f))), 4
	}
	return bad, 1
}

// ---- channels (operations that would block call the scheduler and are retried)

func (w *Worker) block() {
	fn := w.p.vrt.Func("Block")
	w.pushCall(fn, nil, nil, -1, false)
}

func (w *Worker) send(c ChanV, v Value) bool {
	if c.obj == 0 {
		w.block()
		return false
	}
	o := w.st.get(c.obj)
	if o.closed {
		w.runtimePanic("send on closed channel")
	}
	if len(o.buf) < o.ccap {
		o = w.st.getMut(c.obj)
		w.hbRelease(c.obj)
		o.buf = append(o.buf, v)
		return true
	}
	if o.ccap == 0 {
		unsupported("send on an unbuffered channel")
	}
	w.block()
	return false
}

func (w *Worker) recv(fr *Frame, in *ssa.UnOp, c ChanV) Value {
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	if c.obj != 0 {
		o := w.st.get(c.obj)
		if len(o.buf) > 0 {
			o = w.st.getMut(c.obj)
			v := o.buf[0]
			o.buf = append([]Value(nil), o.buf[1:]...)
			w.hbAcquire(c.obj)
			if in.CommaOk {
				return Tuple{v, True}
			}
			return v
		}
		if o.closed {
			w.hbAcquire(c.obj)
			if in.CommaOk {
				return Tuple{zeroValue(et), False}
			}
			return zeroValue(et)
		}
	}
	w.block()
	panic(retry{})
}

// retry abandons the current instruction, which is executed again later.
type retry struct{}

func (w *Worker) selectOp(fr *Frame, in *ssa.Select) bool {
	st := w.st
	ready := -1
	for i, s := range in.States {
		c := w.operand(fr, s.Chan).(ChanV)
		if c.obj == 0 {
			continue
		}
		o := st.get(c.obj)
		if s.Dir == types.SendOnly {
			if o.closed {
				w.runtimePanic("send on closed channel")
			}
			if len(o.buf) < o.ccap {
				ready = i
				break
			}
			if o.ccap == 0 && in.Blocking {
				unsupported("send on an unbuffered channel")
			}
		} else if len(o.buf) > 0 || o.closed {
			ready = i
			break
		}
	}
	if ready < 0 && in.Blocking {
		w.block()
		return false
	}
	res := Tuple{Const(64, uint64(int64(ready))), False}
	for i, s := range in.States {
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			if i == ready {
				c := w.operand(fr, s.Chan).(ChanV)
				o := st.getMut(c.obj)
				w.hbRelease(c.obj)
				o.buf = append(o.buf, w.operand(fr, s.Send))
			}
			continue
		}
		v := zeroValue(et)
		if i == ready {
			c := w.operand(fr, s.Chan).(ChanV)
			o := st.getMut(c.obj)
			w.hbAcquire(c.obj)
			if len(o.buf) > 0 {
				v = o.buf[0]
				o.buf = append([]Value(nil), o.buf[1:]...)
				res[1] = True
			}
		}
		res = append(res, v)
	}
	w.setReg(fr, in, res)
	return true
}
