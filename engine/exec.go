package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// pathEnd is thrown (as a Go panic) to stop the current path.
type pathEnd struct {
	kind string // done, infeasible, unsupported, bound, violation
	msg  string
}

func endPath(kind, format string, a ...interface{}) {
	panic(pathEnd{kind, fmt.Sprintf(format, a...)})
}

func unsupported(format string, a ...interface{}) { endPath("unsupported", format, a...) }

// goPanic is thrown to start a panic of the interpreted program.
type goPanic struct{ v Value }

// Program is the loaded code with its initialised heap.
type Program struct {
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	globals     map[*ssa.Global]int32
	base        []*Object
	fninfo      sync.Map // *ssa.Function -> *FnInfo
	rtErr       types.Type
	msets       typeutil.MethodSetCache
	mcache      sync.Map
	vrt         *ssa.Package
	modPath     string
	canonMu     sync.Mutex
	canon       typeutil.Map
	baseThreads []*Thread
	icache      sync.Map
	ptrs        map[types.Type]types.Type
}

type methodKey struct {
	t types.Type
	m string
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	if v, ok := p.fninfo.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, name: fn.String(), idx: map[ssa.Value]int32{}, consts: map[*ssa.Const]Value{}}
	n := int32(0)
	add := func(v ssa.Value) { fi.idx[v] = n; n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	var rands [16]*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			for _, op := range in.Operands(rands[:0]) {
				if op == nil || *op == nil {
					continue
				}
				if c, ok := (*op).(*ssa.Const); ok {
					if _, ok := fi.consts[c]; !ok {
						fi.consts[c] = constValue(c)
					}
				}
			}
		}
	}
	fi.nregs = int(n)
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Parent() != nil {
		pkg = fn.Parent().Package()
	}
	if pkg != nil {
		path := pkg.Pkg.Path()
		fi.inRT = strings.Contains(path, "/zzv")
		fi.inRepo = strings.HasPrefix(path, p.modPath) && !fi.inRT
	}
	v, _ := p.fninfo.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Poison{"const of type " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return CStr(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(c.Value)
			return Const(32, uint64(math.Float32bits(f32)))
		}
		return Const(64, math.Float64bits(f))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		w := widthOf(b)
		if i, ok := constant.Int64Val(v); ok {
			return Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return Const(w, u)
	}
	return Poison{"const of type " + t.String()}
}

// Worker executes states with its own solver process.
type Worker struct {
	p      *Program
	x      *Explorer
	solver *Solver
	st     *State
}

func (w *Worker) operand(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if r, ok := fr.fn.consts[v]; ok {
			if p, bad := r.(Poison); bad {
				unsupported("%s", p.why)
			}
			return r
		}
		return constValue(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return Ptr{w.globalObj(v), 0}
	case *ssa.Builtin:
		return &Closure{builtin: v}
	}
	i, ok := fr.fn.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fn.fn))
	}
	r := fr.regs[i]
	if p, bad := r.(Poison); bad && !w.x.initMode {
		unsupported("poison: %s", p.why)
	}
	return r
}

func (w *Worker) globalObj(g *ssa.Global) int32 {
	if id, ok := w.p.globals[g]; ok { // not changed after the initialisation
		return id
	}
	unsupported("global %s not allocated", g)
	return 0
}

func (w *Worker) setReg(fr *Frame, v ssa.Value, x Value) {
	fr.regs[fr.fn.idx[v]] = x
}

// branch decides a condition, forking when both outcomes are possible. The caller must not have
// changed the state since the start of the current instruction.
func (w *Worker) branch(c *Expr) bool {
	if c.isConst() {
		return c.val != 0
	}
	st := w.st
	if v, ok := st.facts.get(c); ok {
		return v
	}
	if w.x.initMode {
		unsupported("symbolic branch in init")
	}
	mv := newEval(st.model).eval(c) != 0
	// the model satisfies pc, so the side mv is feasible
	other := c
	if mv {
		other = Not(c)
	}
	res, m := w.solver.Check(st.pc, other)
	switch res {
	case Unsat:
		// implied
		if mv {
			st.facts.set(c, true)
			st.facts.set(Not(c), false)
		} else {
			st.facts.set(c, false)
			st.facts.set(Not(c), true)
		}
		return mv
	case Sat:
		n := st.clone()
		n.addPC(other)
		n.model = overlay(st.model, m)
		n.forks++
		w.x.push(n)
	default:
		w.x.note("solver gave no answer on a branch condition; that side is outside the bound")
	}
	if mv {
		st.addPC(c)
	} else {
		st.addPC(Not(c))
	}
	st.forks++
	return mv
}

func overlay(a, b Model) Model {
	m := make(Model, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// assume adds c to the path condition, ending the path when it is infeasible.
func (w *Worker) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	st := w.st
	if v, ok := st.facts.get(c); ok {
		if !v {
			endPath("infeasible", "")
		}
		return
	}
	if c.isFalse() {
		endPath("infeasible", "")
	}
	if newEval(st.model).eval(c) != 0 {
		st.addPC(c)
		return
	}
	res, m := w.solver.Check(st.pc, c)
	switch res {
	case Unsat:
		endPath("infeasible", "")
	case Unknown:
		endPath("bound", "solver gave no answer on an assumption")
	}
	st.addPC(c)
	st.model = overlay(st.model, m)
}

// concInt makes an integer concrete, forking over its feasible values.
func (w *Worker) concInt(e *Expr, signed bool) int64 {
	for n := 0; ; n++ {
		if e.isConst() {
			break
		}
		if n > 300 {
			endPath("bound", "too many values of a size or index")
		}
		// pinned by a fact?
		v := newEval(w.st.model).eval(e)
		c := Const(e.w, v)
		if w.branch(Eq(e, c)) {
			e = c
			break
		}
	}
	if signed {
		return sx(e.val, e.w)
	}
	return int64(e.val)
}

func (w *Worker) asInt(v Value, t types.Type) int {
	e := v.(*Expr)
	return int(w.concInt(e, isSigned(t)))
}

func (w *Worker) runtimePanic(msg string) {
	panic(goPanic{Iface{t: w.p.rtErr, v: CStr(msg)}})
}

// ---- memory

func (w *Worker) load(p Ptr, t types.Type) Value {
	if p.obj == 0 {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	o := w.st.get(p.obj)
	if o == nil {
		unsupported("dangling object")
	}
	if isAggType(t) {
		n := slotsOf(t)
		if int(p.off)+n > len(o.slots) {
			unsupported("load past object: %v", t)
		}
		w.access(o, p.obj, int(p.off), n, false)
		return Agg(append([]Value(nil), o.slots[p.off:int(p.off)+n]...))
	}
	if int(p.off) >= len(o.slots) {
		unsupported("load past object: %v", t)
	}
	w.access(o, p.obj, int(p.off), 1, false)
	v := o.slots[p.off]
	if e, ok := v.(*Expr); ok {
		// a load through a reinterpreted pointer
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
			if widthOf(b) != e.w {
				return w.loadReinterpret(o, p, widthOf(b))
			}
		}
	}
	return v
}

func (w *Worker) loadReinterpret(o *Object, p Ptr, width uint8) Value {
	e := o.slots[p.off].(*Expr)
	if e.w == 8 && width > 8 {
		var r *Expr
		for i := int(width)/8 - 1; i >= 0; i-- {
			if int(p.off)+i >= len(o.slots) {
				unsupported("reinterpreting load")
			}
			b := o.slots[int(p.off)+i].(*Expr)
			if r == nil {
				r = b
			} else {
				r = Concat(r, b)
			}
		}
		return r
	}
	unsupported("reinterpreting load %d as %d", e.w, width)
	return nil
}

func (w *Worker) store(p Ptr, v Value, t types.Type) {
	if p.obj == 0 {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	o := w.st.getMut(p.obj)
	if isAggType(t) {
		if pz, bad := v.(Poison); bad {
			for i := 0; i < slotsOf(t); i++ {
				o.slots[int(p.off)+i] = pz
			}
			return
		}
		a := v.(Agg)
		if int(p.off)+len(a) > len(o.slots) {
			unsupported("store past object")
		}
		w.access(o, p.obj, int(p.off), len(a), true)
		copy(o.slots[p.off:], a)
		return
	}
	if int(p.off) >= len(o.slots) {
		unsupported("store past object")
	}
	w.access(o, p.obj, int(p.off), 1, true)
	if e, ok := v.(*Expr); ok {
		if old, ok := o.slots[p.off].(*Expr); ok && old.w != e.w {
			if old.w == 8 && e.w > 8 {
				for i := 0; i < int(e.w)/8; i++ {
					o.slots[int(p.off)+i] = Extract(e, uint8(i*8+7), uint8(i*8))
				}
				return
			}
			unsupported("reinterpreting store")
		}
	}
	o.slots[p.off] = v
}

func (w *Worker) newData(t types.Type) Ptr {
	id := w.st.newObj(&Object{kind: kData, typ: t, slots: zeroSlots(t, make(Agg, 0, slotsOf(t)))})
	return Ptr{id, 0}
}

// sliceElems returns the values of a slice whose elements take one slot.
func (w *Worker) sliceElems(s SliceV) []Value {
	if s.len == 0 {
		return nil
	}
	o := w.st.get(s.obj)
	w.access(o, s.obj, int(s.off), int(s.len*s.stride), false)
	return o.slots[s.off : s.off+s.len*s.stride]
}

func (w *Worker) bytesOf(s SliceV) []*Expr {
	el := w.sliceElems(s)
	r := make([]*Expr, len(el))
	for i, x := range el {
		e, ok := x.(*Expr)
		if !ok {
			unsupported("bytes of %T", x)
		}
		r[i] = e
	}
	return r
}

func (w *Worker) newBytes(b []*Expr) SliceV {
	sl := make([]Value, len(b))
	for i, x := range b {
		sl[i] = x
	}
	id := w.st.newObj(&Object{kind: kData, typ: types.Typ[types.Uint8], slots: sl})
	return SliceV{id, 0, 1, int32(len(b)), int32(len(b))}
}

func concBytes(s string) []*Expr { return CStr(s).Bytes() }

// ---- main loop

func (w *Worker) run(st *State) (end pathEnd) {
	w.st = st
	for {
		end, again := w.runSome()
		if !again {
			return end
		}
	}
}

func (w *Worker) runSome() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end, again = r, false
			case goPanic:
				// interpreted program panics
				e, cont := w.startPanic(r.v)
				end, again = e, cont
			case retry:
				end, again = pathEnd{}, true
			default:
				if w.x.initMode {
					end, again = pathEnd{"unsupported", fmt.Sprint("engine: ", r)}, false
					return
				}
				panic(r)
			}
		}
	}()
	st := w.st
	for {
		st.steps++
		if st.steps > st.limit {
			endPath("steplimit", "path exceeded %d instructions", st.limit)
		}
		if st.steps&0x3ff == 0 && w.x.expired() {
			endPath("timeout", "time budget used up")
		}
		w.step(st.top())
	}
}

func (w *Worker) startPanic(v Value) (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end, again = r, false
			case goPanic:
				end, again = w.startPanic(r.v)
			default:
				panic(r)
			}
		}
	}()
	st := w.st
	fr := st.top()
	where := fr.fn.name
	fr.panic = &panicRec{val: v, where: where + w.posOf(fr)}
	w.unwind()
	return pathEnd{}, true
}

func (w *Worker) posOf(fr *Frame) string {
	if fr.block == nil || fr.pc >= len(fr.block.Instrs) {
		return ""
	}
	for i := fr.pc; i >= 0; i-- {
		if p := fr.block.Instrs[i].Pos(); p.IsValid() {
			pos := w.p.prog.Fset.Position(p)
			return fmt.Sprintf(" (%s:%d)", pos.Filename, pos.Line)
		}
	}
	return ""
}

// unwind continues the panic of the top frame: runs its next deferred call, resumes it when the
// panic was recovered, or pops it.
func (w *Worker) unwind() {
	st := w.st
	for {
		t := st.thread()
		fr := t.frames[len(t.frames)-1]
		if fr.panic == nil {
			return
		}
		if fr.panic.recovered {
			fr.panic = nil
			// remaining defers run, then the function returns its named results
			if len(fr.defers) > 0 {
				w.runOneDefer(fr)
				// when that returns we come back here through the marker
				fr2 := st.top()
				if fr2 == fr {
					fr.panic = &panicRec{recovered: true}
					continue
				}
				fr.panic = &panicRec{recovered: true}
				return
			}
			if fr.fn.fn.Recover != nil {
				fr.prev = fr.block
				fr.block = fr.fn.fn.Recover
				fr.pc = 0
				return
			}
			// no named results: return zero values
			sig := fr.fn.fn.Signature
			var res Value
			switch sig.Results().Len() {
			case 0:
			case 1:
				res = zeroValue(sig.Results().At(0).Type())
			default:
				res = zeroValue(sig.Results())
			}
			w.popFrame(res)
			return
		}
		if len(fr.defers) > 0 {
			w.runOneDefer(fr)
			if st.top() != fr {
				return // the deferred call runs; popFrame comes back
			}
			continue
		}
		// pop
		rec := fr.panic
		if fr.nativeK != nil {
			// host continuation cannot catch panics
		}
		t.frames = t.frames[:len(t.frames)-1]
		if len(t.frames) == 0 {
			w.uncaught(rec)
		}
		caller := t.frames[len(t.frames)-1]
		if fr.isDefer && caller.panic != nil {
			// a deferred call panicked while the caller was already panicking: replaces it
			caller.panic = rec
			rec.recovered = false
			continue
		}
		caller.panic = rec
	}
}

func (w *Worker) uncaught(rec *panicRec) {
	w.st.thread().frames = nil
	w.x.violation(w, "uncaught panic: "+w.panicText(rec.val)+" in "+rec.where)
	endPath("violation", "uncaught panic")
}

func (w *Worker) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "?"
	}
	switch x := i.v.(type) {
	case Str:
		if s, ok := x.conc(); ok {
			return i.t.String() + ": " + s
		}
	case *Expr:
		return i.t.String() + ": " + x.String()
	case Ptr:
		if o := w.st.get(x.obj); o != nil && len(o.slots) > 0 {
			if s, ok := o.slots[0].(Str); ok {
				if c, ok := s.conc(); ok {
					return i.t.String() + ": " + c
				}
			}
		}
	}
	return i.t.String()
}

// runOneDefer pops the last deferred call of fr and starts it.
func (w *Worker) runOneDefer(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	w.callValue(d.fn, d.args, -1, true)
}

// popFrame returns res to the caller.
func (w *Worker) popFrame(res Value) {
	t := w.st.thread()
	fr := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		w.threadDone()
		return
	}
	caller := t.frames[len(t.frames)-1]
	if fr.nativeK != nil {
		k := fr.nativeK
		k(w.st, w, res)
		return
	}
	if fr.retTo >= 0 {
		caller.regs[fr.retTo] = res
	}
	if fr.isDefer && caller.panic != nil {
		w.unwind()
	}
}

func (w *Worker) threadDone() {
	st := w.st
	st.thread().done = true
	if st.cur == 0 {
		endPath("done", "")
	}
	// threads other than main end inside vrt.threadExit, which transfers control
	endPath("unsupported", "thread fell off its end")
}

// pushCall starts a call of an SSA function.
func (w *Worker) pushCall(fn *ssa.Function, args []Value, free []Value, retTo int32, isDefer bool) *Frame {
	if fn.Blocks == nil {
		unsupported("call of external function %s", fn.String())
	}
	fi := w.p.info(fn)
	fr := &Frame{fn: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], retTo: retTo, isDefer: isDefer}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("call %s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], free)
	t := w.st.thread()
	if w.st.maxCalls > 0 {
		if len(t.frames) > w.st.maxCalls {
			msg := fmt.Sprintf("stack overflow: calls nested more than %d deep", w.st.maxCalls)
			w.x.violation(w, msg)
			endPath("violation", "%s", msg)
		}
	} else if len(t.frames) > 400 {
		endPath("bound", "call depth")
	}
	t.frames = append(t.frames, fr)
	w.x.enter(fi)
	return fr
}

// callValue calls a function value. For intrinsics the result is delivered at once; otherwise a
// frame is pushed. The caller's pc must already have been advanced if it is an instruction.
func (w *Worker) callValue(f Value, args []Value, retTo int32, isDefer bool) {
	cl := f.(*Closure)
	if cl == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference (nil function)")
	}
	fr := w.st.top()
	if cl.builtin != nil {
		res := w.builtin(nil, cl.builtin.Name(), args, nil, nil)
		if retTo >= 0 {
			fr.regs[retTo] = res
		}
		return
	}
	w.callFn(cl.fn, args, cl.free, retTo, isDefer)
}

func (w *Worker) callFn(fn *ssa.Function, args []Value, free []Value, retTo int32, isDefer bool) {
	fr := w.st.top()
	if in := w.lookupIntrinsic(fn); in != nil {
		res := in(w, &icall{fn: fn, args: args, retTo: retTo, isDefer: isDefer})
		if res != pushed {
			if retTo >= 0 {
				fr.regs[retTo] = res
			}
		}
		return
	}
	w.pushCall(fn, args, free, retTo, isDefer)
}

func (w *Worker) jump(fr *Frame, to *ssa.BasicBlock) {
	if coverFile != "" && fr.fn.inRepo {
		w.x.blocks.Store(to, true)
	}
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	// phis, evaluated together
	n := 0
	var vals [16]Value
	vs := vals[:0]
	pi := -1
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			for i, p := range to.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
		}
		vs = append(vs, w.phiOperand(fr, phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		w.setReg(fr, to.Instrs[i].(*ssa.Phi), vs[i])
	}
	fr.pc = n
}

func (w *Worker) phiOperand(fr *Frame, v ssa.Value) Value {
	if i, ok := fr.fn.idx[v]; ok {
		return fr.regs[i]
	}
	return w.operand(fr, v)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref " + t.String())
}

func (w *Worker) step(fr *Frame) {
	if fr.pc >= len(fr.block.Instrs) {
		panic("fell off block in " + fr.fn.fn.String())
	}
	instr := fr.block.Instrs[fr.pc]
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := w.newData(deref(in.Type()))
		if w.st.race != nil {
			// fresh memory carries no history
		}
		w.setReg(fr, in, p)
	case *ssa.UnOp:
		w.setReg(fr, in, w.unop(fr, in))
	case *ssa.BinOp:
		w.setReg(fr, in, w.binop(in.Op, in.X.Type(), w.operand(fr, in.X), w.operand(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		w.call(fr, in)
		return
	case *ssa.ChangeInterface:
		w.setReg(fr, in, w.operand(fr, in.X))
	case *ssa.ChangeType:
		w.setReg(fr, in, w.operand(fr, in.X))
	case *ssa.Convert:
		w.setReg(fr, in, w.convert(in.X.Type(), in.Type(), w.operand(fr, in.X)))
	case *ssa.MultiConvert:
		w.setReg(fr, in, w.convert(in.X.Type(), in.Type(), w.operand(fr, in.X)))
	case *ssa.Extract:
		t, ok := w.operand(fr, in.Tuple).(Tuple)
		if !ok {
			unsupported("extract from non-tuple")
		}
		w.setReg(fr, in, t[in.Index])
	case *ssa.Field:
		s := in.X.Type().Underlying().(*types.Struct)
		w.setReg(fr, in, subValue(w.operand(fr, in.X).(Agg), fieldOffs(s)[in.Field], s.Field(in.Field).Type()))
	case *ssa.FieldAddr:
		p := w.operand(fr, in.X).(Ptr)
		if p.obj == 0 {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		s := deref(in.X.Type()).Underlying().(*types.Struct)
		w.setReg(fr, in, Ptr{p.obj, p.off + int32(fieldOffs(s)[in.Field])})
	case *ssa.Index:
		w.setReg(fr, in, w.index(fr, in))
	case *ssa.IndexAddr:
		w.setReg(fr, in, w.indexAddr(fr, in))
	case *ssa.If:
		c := w.operand(fr, in.Cond).(*Expr)
		if w.branch(c) {
			w.jump(fr, fr.block.Succs[0])
		} else {
			w.jump(fr, fr.block.Succs[1])
		}
		return
	case *ssa.Jump:
		w.jump(fr, fr.block.Succs[0])
		return
	case *ssa.Lookup:
		w.setReg(fr, in, w.lookup(fr, in))
	case *ssa.MakeChan:
		n := w.asInt(w.operand(fr, in.Size), in.Size.Type())
		if n < 0 {
			w.runtimePanic("makechan: size out of range")
		}
		id := w.st.newObj(&Object{kind: kChan, typ: in.Type(), ccap: n})
		w.setReg(fr, in, ChanV{id})
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.free = append(cl.free, w.operand(fr, b))
		}
		w.setReg(fr, in, cl)
	case *ssa.MakeInterface:
		w.setReg(fr, in, Iface{t: in.X.Type(), v: w.operand(fr, in.X)})
	case *ssa.MakeMap:
		id := w.st.newObj(&Object{kind: kMap, typ: in.Type(), idx: map[interface{}]int{}})
		w.setReg(fr, in, MapV{id})
	case *ssa.MakeSlice:
		w.setReg(fr, in, w.makeSlice(in.Type(), w.operand(fr, in.Len).(*Expr), w.operand(fr, in.Cap).(*Expr), in.Len.Type()))
	case *ssa.MapUpdate:
		w.mapUpdate(w.operand(fr, in.Map).(MapV), w.operand(fr, in.Key), w.operand(fr, in.Value))
	case *ssa.Next:
		w.setReg(fr, in, w.next(fr, in))
	case *ssa.Panic:
		v := w.operand(fr, in.X)
		panic(goPanic{v})
	case *ssa.Phi:
		panic("phi")
	case *ssa.Range:
		w.setReg(fr, in, w.rangeIter(in, w.operand(fr, in.X)))
	case *ssa.Return:
		var res Value
		switch len(in.Results) {
		case 0:
		case 1:
			res = w.operand(fr, in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = w.operand(fr, r)
			}
			res = t
		}
		w.popFrame(res)
		return
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			w.runOneDefer(fr) // comes back to this instruction
			return
		}
	case *ssa.Defer:
		fn, args := w.prepareCall(fr, &in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Go:
		fn, args := w.prepareCall(fr, &in.Call)
		fr.pc++
		w.spawnGo(fn, args)
		return
	case *ssa.Select:
		if !w.selectOp(fr, in) {
			return
		}
	case *ssa.Send:
		if !w.send(w.operand(fr, in.Chan).(ChanV), w.operand(fr, in.X)) {
			return
		}
	case *ssa.Slice:
		w.setReg(fr, in, w.sliceOp(fr, in))
	case *ssa.SliceToArrayPointer:
		s := w.operand(fr, in.X).(SliceV)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			w.runtimePanic("cannot convert slice to array pointer: length too short")
		}
		w.setReg(fr, in, Ptr{s.obj, s.off})
	case *ssa.Store:
		p, ok := w.operand(fr, in.Addr).(Ptr)
		if !ok {
			unsupported("store through non-pointer")
		}
		w.store(p, w.storeVal(fr, in.Val), in.Val.Type())
	case *ssa.TypeAssert:
		w.setReg(fr, in, w.typeAssert(in, w.operand(fr, in.X).(Iface)))
	default:
		unsupported("instruction %T", instr)
	}
	fr.pc++
}

func (w *Worker) storeVal(fr *Frame, v ssa.Value) Value {
	return w.operand(fr, v)
}

func subValue(a Agg, off int, t types.Type) Value {
	if isAggType(t) {
		return Agg(a[off : off+slotsOf(t) : off+slotsOf(t)])
	}
	return a[off]
}

func (w *Worker) unop(fr *Frame, in *ssa.UnOp) Value {
	x := w.operand(fr, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			unsupported("load through %T", x)
		}
		v := w.load(p, in.Type())
		if pz, bad := v.(Poison); bad {
			if w.x.initMode {
				return pz
			}
			unsupported("poisoned global or field: %s (in %s)", pz.why, fr.fn.fn)
		}
		return v
	case token.NOT:
		return Not(x.(*Expr))
	case token.SUB:
		e := x.(*Expr)
		if isFloat(in.X.Type()) {
			return FOp(OFNeg, e.w, e, nil)
		}
		return Neg(e)
	case token.XOR:
		return BNot(x.(*Expr))
	case token.ARROW:
		return w.recv(fr, in, x.(ChanV))
	}
	unsupported("unop %v", in.Op)
	return nil
}

func (w *Worker) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		var r *Expr
		if a, ok := x.(*Expr); ok && isFloat(t) {
			r = FOp(OFEq, 0, a, y.(*Expr))
		} else {
			r = w.equal(x, y)
		}
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if sxv, ok := x.(Str); ok {
		sy := y.(Str)
		switch op {
		case token.ADD:
			return concatStr(sxv, sy)
		case token.LSS:
			return strLess(sxv, sy)
		case token.GTR:
			return strLess(sy, sxv)
		case token.LEQ:
			return Not(strLess(sy, sxv))
		case token.GEQ:
			return Not(strLess(sxv, sy))
		}
	}
	a, ok1 := x.(*Expr)
	b, ok2 := y.(*Expr)
	if !ok1 || !ok2 {
		unsupported("binop %v on %T,%T", op, x, y)
	}
	if isFloat(t) {
		switch op {
		case token.ADD:
			return FOp(OFAdd, a.w, a, b)
		case token.SUB:
			return FOp(OFSub, a.w, a, b)
		case token.MUL:
			return FOp(OFMul, a.w, a, b)
		case token.QUO:
			return FOp(OFDiv, a.w, a, b)
		case token.LSS:
			return FOp(OFLt, 0, a, b)
		case token.LEQ:
			return FOp(OFLe, 0, a, b)
		case token.GTR:
			return FOp(OFLt, 0, b, a)
		case token.GEQ:
			return FOp(OFLe, 0, b, a)
		}
		unsupported("float op %v", op)
	}
	signed := isSigned(t)
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		if w.branch(Eq(b, Const(b.w, 0))) {
			w.runtimePanic("integer divide by zero")
		}
		if signed {
			if op == token.QUO {
				return SDiv(a, b)
			}
			return SRem(a, b)
		}
		if op == token.QUO {
			return UDiv(a, b)
		}
		return URem(a, b)
	case token.AND:
		if a.w == 0 {
			return And(a, b)
		}
		return BAnd(a, b)
	case token.OR:
		if a.w == 0 {
			return Or(a, b)
		}
		return BOr(a, b)
	case token.XOR:
		return BXor(a, b)
	case token.AND_NOT:
		return BAnd(a, BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if w.branch(SLt(b, Const(b.w, 0))) {
				w.runtimePanic("negative shift amount")
			}
		}
		// bring the count to the operand's width, saturating
		cnt := b
		if b.w > a.w {
			big := Not(ULt(b, Const(b.w, uint64(a.w))))
			cnt = Ite(big, Const(a.w, uint64(a.w)), Extract(b, a.w-1, 0))
		} else if b.w < a.w {
			cnt = ZExt(b, a.w)
		}
		if op == token.SHL {
			return Shl(a, cnt)
		}
		if signed {
			return AShr(a, cnt)
		}
		return LShr(a, cnt)
	case token.LSS:
		if signed {
			return SLt(a, b)
		}
		return ULt(a, b)
	case token.LEQ:
		if signed {
			return SLe(a, b)
		}
		return ULe(a, b)
	case token.GTR:
		if signed {
			return SLt(b, a)
		}
		return ULt(b, a)
	case token.GEQ:
		if signed {
			return SLe(b, a)
		}
		return ULe(b, a)
	}
	unsupported("binop %v", op)
	return nil
}

func concatStr(a, b Str) Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	r := make([]*Expr, 0, a.Len()+b.Len())
	r = append(r, a.Bytes()...)
	r = append(r, b.Bytes()...)
	return Str{b: r}
}

func strEq(a, b Str) *Expr {
	if a.Len() != b.Len() {
		return False
	}
	if a.b == nil && b.b == nil {
		return Bool(a.s == b.s)
	}
	r := True
	for i := 0; i < a.Len(); i++ {
		x, y := a.At(i), b.At(i)
		if x == y {
			continue
		}
		r = And(r, Eq(x, y))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func strLess(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = Or(ULt(x, y), And(Eq(x, y), r))
	}
	return r
}

// equal is Go's == on two values of the same static type.
func (w *Worker) equal(x, y Value) *Expr {
	switch a := x.(type) {
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			unsupported("== %T %T", x, y)
		}
		return Eq(a, b)
	case Str:
		return strEq(a, y.(Str))
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return Bool(a == b)
		}
		return Bool(a.obj == 0 && y == nil)
	case SliceV:
		if b, ok := y.(SliceV); ok {
			return Bool(a.obj == 0 && b.obj == 0 || a == b)
		}
	case MapV:
		if b, ok := y.(MapV); ok {
			return Bool(a == b)
		}
	case ChanV:
		if b, ok := y.(ChanV); ok {
			return Bool(a == b)
		}
	case *Closure:
		b, _ := y.(*Closure)
		return Bool(a == b)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsupported("== iface %T", y)
		}
		if a.t == nil || b.t == nil {
			return Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return False
		}
		if !types.Comparable(a.t) {
			w.runtimePanic("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v)
	case Agg:
		b := y.(Agg)
		r := True
		for i := range a {
			r = And(r, w.equal(a[i], b[i]))
		}
		return r
	case nil:
		return Bool(y == nil)
	case Opaque:
		b, ok := y.(Opaque)
		return Bool(ok && a == b)
	}
	unsupported("== on %T %T", x, y)
	return nil
}

func (w *Worker) convert(from, to types.Type, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				s := x.(SliceV)
				if f.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return normStr(w.bytesOf(s))
				}
				// []rune
				var out []*Expr
				for _, v := range w.sliceElems(s) {
					out = append(out, w.encodeRune(v.(*Expr))...)
				}
				return normStr(out)
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				e := x.(*Expr)
				if e.isConst() {
					v := int64(e.val)
					if isSigned(from) {
						v = sx(e.val, e.w)
					}
					if v < 0 || v > 0x10ffff {
						v = 0xfffd
					}
					return CStr(string(rune(v)))
				}
				r := e
				if e.w > 32 {
					r = Extract(e, 31, 0)
				} else if e.w < 32 {
					r = ZExt(e, 32)
				}
				return normStr(w.encodeRune(r))
			}
		case tb.Kind() == types.UnsafePointer:
			return x
		case tb.Info()&types.IsNumeric != 0:
			e, ok := x.(*Expr)
			if !ok {
				if p, ok := x.(Ptr); ok {
					// pointer to uintptr: an opaque, non-zero number
					if p.obj == 0 {
						return Const(64, 0)
					}
					return Const(64, uint64(p.obj)<<20+uint64(p.off)*8+0xc000000000)
				}
				unsupported("convert %T to %v", x, to)
			}
			tw := widthOf(tb)
			ff, tf := isFloat(from), tb.Info()&types.IsFloat != 0
			switch {
			case ff && tf:
				if e.w == tw {
					return e
				}
				return FOp(OFToF, tw, e, nil)
			case ff:
				if e.isConst() {
					return Const(tw, convFloatInt(e, tw, isSigned(to)))
				}
				if isSigned(to) {
					return FOp(OFToS, tw, e, nil)
				}
				return FOp(OFToU, tw, e, nil)
			case tf:
				if isSigned(from) {
					return FOp(OFFromS, tw, e, nil)
				}
				return FOp(OFFromU, tw, e, nil)
			}
			if tw <= e.w {
				return ZExt(e, tw)
			}
			if isSigned(from) {
				return SExt(e, tw)
			}
			return ZExt(e, tw)
		case tb.Info()&types.IsBoolean != 0:
			return x
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			s := x.(Str)
			if t.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return w.newBytes(s.Bytes())
			}
			if c, ok := s.conc(); ok {
				rs := []rune(c)
				sl := make([]Value, len(rs))
				for i, r := range rs {
					sl[i] = Const(32, uint64(r))
				}
				id := w.st.newObj(&Object{kind: kData, typ: t.Elem(), slots: sl})
				return SliceV{id, 0, 1, int32(len(sl)), int32(len(sl))}
			}
			var sl []Value
			for i := 0; i < s.Len(); i++ {
				b := s.At(i)
				if !w.branch(ULt(b, Const(8, 0x80))) {
					endPath("bound", "non-ASCII byte in []rune conversion")
				}
				sl = append(sl, ZExt(b, 32))
			}
			id := w.st.newObj(&Object{kind: kData, typ: t.Elem(), slots: sl})
			return SliceV{id, 0, 1, int32(len(sl)), int32(len(sl))}
		}
		return x
	case *types.Pointer:
		if _, ok := x.(Ptr); ok {
			return x
		}
	case *types.Struct, *types.Array, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return x
	}
	unsupported("convert %v to %v", from, to)
	return nil
}

func convFloatInt(e *Expr, tw uint8, signed bool) uint64 {
	f := tof(e.val, e.w)
	if signed {
		return uint64(int64(f))
	}
	return uint64(f)
}

func (w *Worker) encodeRune(r *Expr) []*Expr {
	if r.isConst() {
		return concBytes(string(rune(int32(r.val))))
	}
	if !w.branch(ULt(r, Const(32, 0x80))) {
		endPath("bound", "non-ASCII rune")
	}
	return []*Expr{Extract(r, 7, 0)}
}

func (w *Worker) boundsCheck(idx *Expr, n int, t types.Type) {
	ok := w.inBounds(idx, n, t)
	if !w.branch(ok) {
		w.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (w *Worker) inBounds(idx *Expr, n int, t types.Type) *Expr {
	if idx.w < 64 {
		if isSigned(t) {
			idx = SExt(idx, 64)
		} else {
			idx = ZExt(idx, 64)
		}
	}
	return ULt(idx, Const(64, uint64(n)))
}

func (w *Worker) selectElem(vals []Value, idx *Expr) Value {
	// all scalars of one width?
	es := make([]*Expr, len(vals))
	allConst := true
	for i, v := range vals {
		e, ok := v.(*Expr)
		if !ok {
			return nil
		}
		es[i] = e
		if e.op != OConst {
			allConst = false
		}
	}
	if len(es) == 0 || len(es) > 8192 {
		return nil
	}
	if allConst && len(es)&(len(es)-1) == 0 && len(es) >= 8 {
		// XOR-linear table (CRC tables and the like)
		if es[0].val == 0 {
			lin := true
			for i := 1; i < len(es) && lin; i++ {
				if i&(i-1) != 0 && es[i].val != es[i&-i].val^es[i&(i-1)].val {
					lin = false
				}
			}
			if lin {
				r := Const(es[0].w, 0)
				for b := 0; 1<<b < len(es); b++ {
					bit := Extract(idx, uint8(b), uint8(b))
					r = BXor(r, BAnd(SExt(bit, es[0].w), es[1<<b]))
				}
				return r
			}
		}
	}
	// restrict to the index's range
	lo, hi := 0, len(es)-1
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	if idx.lo > 0 && idx.lo <= uint64(hi) {
		lo = int(idx.lo)
	}
	if hi-lo > 600 && !allConst {
		return nil
	}
	r := es[hi]
	for i := hi - 1; i >= lo; i-- {
		r = Ite(Eq(idx, Const(idx.w, uint64(i))), es[i], r)
	}
	return r
}

func (w *Worker) index(fr *Frame, in *ssa.Index) Value {
	x := w.operand(fr, in.X)
	idx := w.operand(fr, in.Index).(*Expr)
	if s, ok := x.(Str); ok {
		w.boundsCheck(idx, s.Len(), in.Index.Type())
		if idx.isConst() {
			return s.At(int(idx.val))
		}
		vals := make([]Value, s.Len())
		for i := range vals {
			vals[i] = s.At(i)
		}
		if r := w.selectElem(vals, idx); r != nil {
			return r
		}
		return s.At(int(w.concInt(idx, false)))
	}
	a := x.(Agg)
	at := in.X.Type().Underlying().(*types.Array)
	w.boundsCheck(idx, int(at.Len()), in.Index.Type())
	es := slotsOf(at.Elem())
	if !idx.isConst() && es == 1 && !isAggType(at.Elem()) {
		if r := w.selectElem(a, idx); r != nil {
			return r
		}
	}
	i := int(w.concInt(idx, isSigned(in.Index.Type())))
	return subValue(a, i*es, at.Elem())
}

func (w *Worker) indexAddr(fr *Frame, in *ssa.IndexAddr) Value {
	x := w.operand(fr, in.X)
	idx := w.operand(fr, in.Index).(*Expr)
	var p Ptr
	var n, stride int
	switch v := x.(type) {
	case Ptr:
		if v.obj == 0 {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		at := deref(in.X.Type()).Underlying().(*types.Array)
		p, n, stride = v, int(at.Len()), slotsOf(at.Elem())
	case SliceV:
		p, n, stride = Ptr{v.obj, v.off}, int(v.len), int(v.stride)
	default:
		unsupported("indexaddr %T", x)
	}
	w.boundsCheck(idx, n, in.Index.Type())
	if !idx.isConst() {
		// reading one scalar element through a symbolic index: deliver the value through a
		// fresh cell, when every use of the address is a load
		if stride == 1 && onlyLoads(in) && w.st.race == nil {
			o := w.st.get(p.obj)
			if r := w.selectElem(o.slots[p.off:int(p.off)+n], idx); r != nil {
				id := w.st.newObj(&Object{kind: kData, slots: []Value{r}})
				return Ptr{id, 0}
			}
		}
		if stride == 1 && onlyStores(in) && w.st.race == nil && n <= 4096 {
			if st, ok := nextStore(in); ok {
				if nv, ok := w.tryOperand(fr, st.Val).(*Expr); ok {
					o := w.st.getMut(p.obj)
					all := true
					for i := 0; i < n; i++ {
						if _, ok := o.slots[int(p.off)+i].(*Expr); !ok {
							all = false
						}
					}
					if all {
						for i := 0; i < n; i++ {
							old := o.slots[int(p.off)+i].(*Expr)
							o.slots[int(p.off)+i] = Ite(Eq(idx, Const(idx.w, uint64(i))), nv, old)
						}
						id := w.st.newObj(&Object{kind: kData, slots: []Value{nv}})
						return Ptr{id, 0}
					}
				}
			}
		}
	}
	i := int(w.concInt(idx, isSigned(in.Index.Type())))
	return Ptr{p.obj, p.off + int32(i*stride)}
}

func onlyLoads(in *ssa.IndexAddr) bool {
	refs := *in.Referrers()
	if len(refs) != 1 {
		return false
	}
	u, ok := refs[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != in.Block() {
		return false
	}
	instrs := in.Block().Instrs
	for i, x := range instrs {
		if x == in {
			return i+1 < len(instrs) && instrs[i+1] == u
		}
	}
	return false
}

func onlyStores(in *ssa.IndexAddr) bool {
	n := 0
	for _, r := range *in.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != in || s.Block() != in.Block() {
			return false
		}
		n++
	}
	return n == 1
}

func nextStore(in *ssa.IndexAddr) (*ssa.Store, bool) {
	instrs := in.Block().Instrs
	for i, x := range instrs {
		if x == in && i+1 < len(instrs) {
			s, ok := instrs[i+1].(*ssa.Store)
			return s, ok && s.Addr == in
		}
	}
	return nil, false
}

func (w *Worker) tryOperand(fr *Frame, v ssa.Value) Value {
	if i, ok := fr.fn.idx[v]; ok {
		return fr.regs[i]
	}
	return w.operand(fr, v)
}

func (w *Worker) sliceOp(fr *Frame, in *ssa.Slice) Value {
	x := w.operand(fr, in.X)
	get := func(v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		e := w.operand(fr, v).(*Expr)
		if e.w < 64 {
			if isSigned(v.Type()) {
				e = SExt(e, 64)
			} else {
				e = ZExt(e, 64)
			}
		}
		return e
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	c64 := func(n int) *Expr { return Const(64, uint64(n)) }
	if lo == nil {
		lo = c64(0)
	}
	if s, ok := x.(Str); ok {
		if hi == nil {
			hi = c64(s.Len())
		}
		if !w.branch(And(ULe(hi, c64(s.Len())), ULe(lo, hi))) {
			w.runtimePanic("slice bounds out of range")
		}
		l := int(w.concInt(lo, false))
		h := int(w.concInt(hi, false))
		return s.Slice(l, h)
	}
	var base SliceV
	switch v := x.(type) {
	case SliceV:
		base = v
	case Ptr:
		if v.obj == 0 {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		at := deref(in.X.Type()).Underlying().(*types.Array)
		n := int32(at.Len())
		base = SliceV{v.obj, v.off, int32(slotsOf(at.Elem())), n, n}
	default:
		unsupported("slice of %T", x)
	}
	if hi == nil {
		hi = c64(int(base.len))
	}
	if mx == nil {
		mx = c64(int(base.cap))
	}
	if !w.branch(And(And(ULe(mx, c64(int(base.cap))), ULe(hi, mx)), ULe(lo, hi))) {
		w.runtimePanic("slice bounds out of range")
	}
	l := int32(w.concSize(lo))
	h := int32(w.concSize(hi))
	m := int32(w.concSize(mx))
	if base.obj == 0 {
		return SliceV{}
	}
	return SliceV{base.obj, base.off + l*base.stride, base.stride, h - l, m - l}
}

const maxAlloc = 1 << 22

func (w *Worker) makeSlice(t types.Type, n, c *Expr, nt types.Type) Value {
	elem := t.Underlying().(*types.Slice).Elem()
	if n.w < 64 {
		if isSigned(nt) {
			n = SExt(n, 64)
		} else {
			n = ZExt(n, 64)
		}
	}
	if c.w < 64 {
		c = SExt(c, 64)
	}
	limit := Const(64, uint64(1)<<47)
	if !w.branch(ULt(n, limit)) {
		w.runtimePanic("makeslice: len out of range")
	}
	if n != c && !w.branch(And(ULe(n, c), ULt(c, limit))) {
		w.runtimePanic("makeslice: cap out of range")
	}
	var ln, cp int64
	if !n.isConst() {
		if w.st.maxAlloc > 0 && !w.branch(ULe(n, Const(64, uint64(w.st.maxAlloc)))) {
			w.x.violationOrBound(w, fmt.Sprintf("allocation of more than %d elements", w.st.maxAlloc))
		}
		ln = w.concSize(n)
	} else {
		ln = int64(n.val)
	}
	if c == n {
		cp = ln
	} else {
		cp = w.concInt(c, false)
	}
	es := slotsOf(elem)
	if w.st.maxAlloc > 0 && cp > int64(w.st.maxAlloc) || cp*int64(max(es, 1)) > maxAlloc {
		w.x.violationOrBound(w, fmt.Sprintf("allocation of %d elements", cp))
	}
	slots := make(Agg, 0, int(cp)*es)
	if es == 1 && !isAggType(elem) {
		z := zeroValue(elem)
		slots = slots[:cp]
		for i := range slots {
			slots[i] = z
		}
	} else {
		for i := int64(0); i < cp; i++ {
			slots = zeroSlots(elem, slots)
		}
	}
	id := w.st.newObj(&Object{kind: kData, typ: elem, slots: slots})
	return SliceV{id, 0, int32(es), int32(ln), int32(cp)}
}

// concSize makes a size concrete: sizes up to the harness' bound are enumerated; above it, one
// representative is taken.
func (w *Worker) concSize(n *Expr) int64 {
	if n.isConst() {
		return int64(n.val)
	}
	k := uint64(w.st.sizeBound)
	if w.branch(ULe(n, Const(64, k))) {
		return w.concInt(n, false)
	}
	w.x.note(fmt.Sprintf("sizes above %d are represented by one feasible size each", k))
	return int64(w.pickBig(n))
}

// pickBig pins a large symbolic size to one feasible value.
func (w *Worker) pickBig(n *Expr) uint64 {
	v := newEval(w.st.model).eval(n)
	w.assume(Eq(n, Const(64, v)))
	return v
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	at := in.AssertedType
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.t != nil && w.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, at) {
		ok = true
		v = x.v
	}
	if in.CommaOk {
		if !ok {
			v = zeroValue(at)
		}
		return Tuple{v, Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		w.runtimePanic("interface conversion: interface is " + d + ", not " + at.String())
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache sync.Map

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

func (w *Worker) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if v, ok := w.p.mcache.Load(k); ok {
		return v.(*ssa.Function)
	}
	w.p.canonMu.Lock()
	fn := w.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.p.canonMu.Unlock()
	if fn == nil {
		unsupported("no method %s on %v", m.Name(), t)
	}
	w.p.mcache.Store(k, fn)
	return fn
}

// prepareCall evaluates a call's function and arguments.
func (w *Worker) prepareCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := w.operand(fr, c.Value)
		i, ok := recv.(Iface)
		if !ok {
			unsupported("invoke on %T", recv)
		}
		if i.t == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference (method call on nil interface)")
		}
		if op, ok := i.v.(Opaque); ok {
			_ = op
		}
		fn := w.findMethod(i.t, c.Method)
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, w.operand(fr, a))
		}
		return &Closure{fn: fn}, args
	}
	fn := w.operand(fr, c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = w.operand(fr, a)
	}
	return fn, args
}

func (w *Worker) call(fr *Frame, in *ssa.Call) {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(in.Call.Args))
		for i, a := range in.Call.Args {
			args[i] = w.operand(fr, a)
		}
		res := w.builtin(fr, b.Name(), args, &in.Call, in.Type())
		w.setReg(fr, in, res)
		fr.pc++
		return
	}
	fn, args := w.prepareCall(fr, &in.Call)
	cl, ok := fn.(*Closure)
	if !ok {
		unsupported("call of %T", fn)
	}
	if cl == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference (nil function)")
	}
	if cl.builtin != nil {
		w.setReg(fr, in, w.builtin(fr, cl.builtin.Name(), args, nil, in.Type()))
		fr.pc++
		return
	}
	retTo := fr.fn.idx[in]
	if i := w.lookupIntrinsic(cl.fn); i != nil {
		res := i(w, &icall{fn: cl.fn, args: args, retTo: retTo, instr: in, fr: fr})
		if res == pushed {
			// the intrinsic pushed a frame (and left pc to us) or switched threads
			return
		}
		fr.regs[retTo] = res
		fr.pc++
		return
	}
	fr.pc++
	w.pushCall(cl.fn, args, cl.free, retTo, false)
}

// spawnGo runs a go statement of code that is not rewritten.
func (w *Worker) spawnGo(fn Value, args []Value) {
	if len(args) > 0 {
		unsupported("go statement with arguments in library code")
	}
	w.pushCall(w.p.vrt.Func("Go"), []Value{fn}, nil, -1, false)
}
