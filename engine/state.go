package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	fn     *ssa.Function
	name   string
	idx    map[ssa.Value]int32
	nregs  int
	consts map[*ssa.Const]Value
	inRT   bool // runtime-support package: not subject to race detection
	inRepo bool
}

type deferred struct {
	fn   Value // *Closure
	args []Value
	// for invoke-mode and builtin
	call *ssa.CallCommon
}

type panicRec struct {
	val       Value // Iface
	recovered bool
	where     string
}

type Frame struct {
	fn      *FnInfo
	regs    []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	retTo   int32 // caller register, -1: none
	isDefer bool
	panic   *panicRec // unwinding through this frame
	nativeK func(st *State, w *Worker, res Value)
}

type Thread struct {
	id     int
	frames []*Frame
	done   bool
	vc     []int32
}

type Input struct {
	Kind  string
	Name  string
	Exprs []*Expr // value(s)
}

// inputList holds the inputs of a path, the last one first. Forks share what they have in common.
type inputList struct {
	prev *inputList
	in   Input
}

func (st *State) addInput(in Input) { st.inputs = &inputList{st.inputs, in} }

func (l *inputList) all() []Input {
	var r []Input
	for ; l != nil; l = l.prev {
		r = append(r, l.in)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Obs struct {
	Name  string
	Exprs []*Expr
	Str   bool
}

type State struct {
	base      []*Object
	over      layered[int32, *Object]
	nextObj   int32
	own       *owner
	threads   []*Thread
	cur       int
	pc        []*Expr
	facts     layered[*Expr, bool]
	model     Model
	inputs    *inputList
	obs       []Obs
	steps     int64
	limit     int64
	forks     int
	globals   map[*ssa.Global]int32
	names     map[string]int
	race      *raceState
	notes     map[string]bool
	mustTerm  bool
	sizeBound int
	maxAlloc  int
	maxCalls  int
	dbg       int
}

func (st *State) clone() *State {
	n := *st
	n.over = st.over.clone()
	st.own = &owner{}
	n.own = &owner{}
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		c := *t
		c.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			g := *f
			g.regs = append([]Value(nil), f.regs...)
			g.defers = append([]deferred(nil), f.defers...)
			if f.panic != nil {
				p := *f.panic
				g.panic = &p
			}
			c.frames[j] = &g
		}
		c.vc = append([]int32(nil), t.vc...)
		n.threads[i] = &c
	}
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pc = st.pc
	n.facts = st.facts.clone()
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	n.obs = st.obs
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	if st.race != nil {
		n.race = st.race.clone()
	}
	return &n
}

func (st *State) get(id int32) *Object {
	if o, ok := st.over.get(id); ok {
		return o
	}
	if int(id) < len(st.base) {
		return st.base[id]
	}
	return nil
}

func (st *State) getMut(id int32) *Object {
	if o, ok := st.over.get(id); ok {
		if o.own == st.own {
			return o
		}
		n := o.clone(st.own)
		st.over.set(id, n)
		return n
	}
	if int(id) < len(st.base) && st.base[id] != nil {
		n := st.base[id].clone(st.own)
		st.over.set(id, n)
		return n
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (st *State) newObj(o *Object) int32 {
	id := st.nextObj
	st.nextObj++
	o.own = st.own
	st.over.set(id, o)
	return id
}

func (st *State) thread() *Thread { return st.threads[st.cur] }

func (st *State) top() *Frame {
	t := st.threads[st.cur]
	return t.frames[len(t.frames)-1]
}

func (st *State) addPC(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.op == OBAnd {
		st.addPC(c.a[0])
		st.addPC(c.a[1])
		return
	}
	if v, _ := st.facts.get(c); v {
		return
	}
	st.pc = append(st.pc, c)
	st.facts.set(c, true)
	st.facts.set(Not(c), false)
}
