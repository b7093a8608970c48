package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a failed assertion with the inputs that reach it.
type Violation struct {
	Harness   string
	Msg       string
	Inputs    []inRec
	Obs       []string
	Confirmed bool
	Replay    string
	Note      string
}

type inRec struct {
	K string `json:"k"`
	N string `json:"n"`
	V string `json:"v"`
}

// Trace is a completed path, to be replayed natively.
type Trace struct {
	Harness string
	Inputs  []inRec
	Obs     []string
}

// Explorer holds the exploration of one harness.
type Explorer struct {
	name     string
	fn       *ssa.Function
	pool     *Pool
	initMode bool

	mu      sync.Mutex
	queue   []*State
	active  int
	started bool

	paths, forks, asserts int64
	steps                 int64
	ends                  map[string]int64
	endMsgs               map[string]int64
	notes                 map[string]int64
	bounds                map[string]bool
	covers                map[string]bool
	must                  map[string]bool
	known                 map[string]bool
	viol                  []*Violation
	vkeys                 map[string]int
	traces                []*Trace
	ntr                   int64
	cover                 *sync.Map // *FnInfo -> true
	blocks                sync.Map  // *ssa.BasicBlock -> true, with VERIF_COVER
	maxDepth              int
	wall                  time.Duration
	begin                 time.Time
	dropped               int64
}

type Pool struct {
	p        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	xs       []*Explorer
	deadline time.Time
	stop     atomic.Bool
	knownIDs map[string]bool
	thorough bool
	stats    SolverStats
	verbose  bool
	maxViol  int
	rr       int
}

func newExplorer(name string, fn *ssa.Function, pl *Pool) *Explorer {
	return &Explorer{name: name, fn: fn, pool: pl, ends: map[string]int64{}, endMsgs: map[string]int64{}, notes: map[string]int64{},
		bounds: map[string]bool{}, covers: map[string]bool{}, must: map[string]bool{}, known: map[string]bool{}, vkeys: map[string]int{}, cover: &sync.Map{}}
}

func (x *Explorer) push(st *State) {
	x.pool.mu.Lock()
	x.queue = append(x.queue, st)
	x.pool.mu.Unlock()
	atomic.AddInt64(&x.forks, 1)
	x.pool.cond.Signal()
}

func (x *Explorer) expired() bool {
	if x.initMode {
		return false
	}
	return x.pool.stop.Load() || time.Now().After(x.pool.deadline)
}

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.notes[s]++
	x.mu.Unlock()
}

func (x *Explorer) enter(fi *FnInfo) {
	if fi.inRepo {
		if _, ok := x.cover.Load(fi); !ok {
			x.cover.Store(fi, true)
		}
		if coverFile != "" && len(fi.fn.Blocks) > 0 {
			x.blocks.Store(fi.fn.Blocks[0], true)
		}
	}
}

// coverFile, from VERIF_COVER, gets the source lines each harness executes (a development aid).
var coverFile = os.Getenv("VERIF_COVER")

func writeCover(xs []*Explorer) {
	all := map[string]map[string]bool{}
	for _, x := range xs {
		ls := map[string]bool{}
		x.blocks.Range(func(k, v interface{}) bool {
			b := k.(*ssa.BasicBlock)
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					p := b.Parent().Prog.Fset.Position(in.Pos())
					ls[fmt.Sprintf("%s:%d", p.Filename, p.Line)] = true
				}
			}
			return true
		})
		all[x.name] = ls
	}
	out := map[string][]string{}
	for n, ls := range all {
		for l := range ls {
			out[n] = append(out[n], l)
		}
		sort.Strings(out[n])
	}
	b, _ := json.Marshal(out)
	os.WriteFile(coverFile, b, 0644)
}

func (w *Worker) inputsUnder(m Model) []inRec {
	ev := newEval(m)
	var r []inRec
	for _, in := range w.st.inputs.all() {
		rec := inRec{K: in.Kind, N: in.Name}
		if in.Kind == "bytes" || in.Kind == "string" {
			b := make([]byte, len(in.Exprs))
			for i, e := range in.Exprs {
				b[i] = byte(ev.eval(e))
			}
			rec.V = hex.EncodeToString(b)
		} else {
			rec.V = fmt.Sprint(ev.eval(in.Exprs[0]))
		}
		r = append(r, rec)
	}
	return r
}

func (w *Worker) obsUnder(m Model) []string {
	ev := newEval(m)
	var r []string
	for _, o := range w.st.obs {
		if o.Str {
			b := make([]byte, len(o.Exprs))
			for i, e := range o.Exprs {
				b[i] = byte(ev.eval(e))
			}
			r = append(r, fmt.Sprintf("OBS %s x%x", o.Name, b))
		} else {
			r = append(r, fmt.Sprintf("OBS %s %d", o.Name, int64(ev.eval(o.Exprs[0]))))
		}
	}
	return r
}

func (x *Explorer) violation(w *Worker, msg string) { x.violationM(w, msg, w.st.model) }

func (x *Explorer) violationM(w *Worker, msg string, m Model) {
	if x.initMode {
		fmt.Fprintln(os.Stderr, "init: violation:", msg)
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.vkeys[msg] >= 3 || len(x.viol) >= 40 {
		return
	}
	x.vkeys[msg]++
	x.viol = append(x.viol, &Violation{Harness: x.name, Msg: msg, Inputs: w.inputsUnder(m), Obs: w.obsUnder(m)})
}

func (x *Explorer) violationOrBound(w *Worker, msg string) {
	if w.st.maxAlloc > 0 {
		x.violation(w, msg)
		endPath("violation", "%s", msg)
	}
	endPath("bound", "%s", msg)
}

func (x *Explorer) ended(w *Worker, end pathEnd) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.paths++
	x.steps += w.st.steps
	x.ends[end.kind]++
	if end.kind != "done" && end.kind != "infeasible" && end.kind != "violation" && end.kind != "known" {
		x.endMsgs[end.kind+": "+end.msg]++
	}
	if w.st.forks > x.maxDepth {
		x.maxDepth = w.st.forks
	}
	if end.kind == "done" {
		x.ntr++
		// keep a spread of paths for native validation: powers of two
		if n := x.ntr; n&(n-1) == 0 && len(x.traces) < 12 {
			x.traces = append(x.traces, &Trace{Harness: x.name, Inputs: w.inputsUnder(w.st.model), Obs: w.obsUnder(w.st.model)})
		}
	}
}

// next picks a state: the started harness with the fewest workers and states left.
func (pl *Pool) next() (*Explorer, *State) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for {
		if pl.stop.Load() || time.Now().After(pl.deadline) {
			return nil, nil
		}
		var best *Explorer
		busy := false
		n := len(pl.xs)
		for k := 0; k < n; k++ {
			x := pl.xs[(k+pl.rr)%n]
			if x.active > 0 {
				busy = true
			}
			if len(x.queue) == 0 {
				continue
			}
			if best == nil || x.active < best.active {
				best = x
			}
		}
		pl.rr++
		if best != nil {
			if !best.started {
				best.started = true
				best.begin = time.Now()
			}
			st := best.queue[len(best.queue)-1]
			best.queue = best.queue[:len(best.queue)-1]
			best.active++
			return best, st
		}
		if !busy {
			pl.cond.Broadcast()
			return nil, nil
		}
		pl.cond.Wait()
	}
}

func (pl *Pool) finish(x *Explorer) {
	pl.mu.Lock()
	x.active--
	if x.active == 0 && len(x.queue) == 0 {
		x.wall = time.Since(x.begin)
	}
	pl.mu.Unlock()
	pl.cond.Broadcast()
}

func (pl *Pool) run(workers int) {
	pl.cond = sync.NewCond(&pl.mu)
	tick := time.NewTicker(500 * time.Millisecond)
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-tick.C:
				pl.cond.Broadcast()
			case <-stopTick:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{p: pl.p, solver: NewSolver(&pl.stats)}
			defer w.solver.Close()
			for {
				x, st := pl.next()
				if x == nil {
					return
				}
				w.x = x
				end := w.safeRun(st)
				x.ended(w, end)
				w.st = nil
				pl.finish(x)
			}
		}()
	}
	wg.Wait()
	close(stopTick)
	tick.Stop()
}

// safeRun turns an internal error of the engine into an unsupported path.
func (w *Worker) safeRun(st *State) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			where := ""
			func() {
				defer func() { recover() }()
				fr := st.top()
				where = fr.fn.fn.String() + w.posOf(fr)
			}()
			end = pathEnd{"unsupported", fmt.Sprintf("engine error: %v at %s", r, where)}
			if w.x.pool.verbose {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", end.msg, debug.Stack())
			}
		}
	}()
	end = w.run(st)
	if end.kind == "unsupported" || end.kind == "steplimit" || end.kind == "bound" {
		func() {
			defer func() { recover() }()
			fr := st.top()
			end.msg += " [in " + fr.fn.fn.String() + w.posOf(fr) + "]"
			if w.x.pool.verbose {
				t := st.thread()
				for i := len(t.frames) - 1; i >= 0; i-- {
					fmt.Fprintf(os.Stderr, "   %s%s\n", t.frames[i].fn.fn, w.posOf(t.frames[i]))
				}
				fmt.Fprintln(os.Stderr, end)
			}
		}()
	}
	if end.kind == "steplimit" && st.mustTerm {
		w.x.violation(w, "does not terminate within the instruction bound")
	}
	return end
}

// newState is the start of a harness on the initialised heap.
func (p *Program) newState(fn *ssa.Function) *State {
	st := &State{base: p.base, nextObj: int32(len(p.base)), own: &owner{}, model: Model{}, names: map[string]int{}, limit: 3000000, sizeBound: 64}
	for _, t := range p.baseThreads {
		c := *t
		c.frames = nil
		for _, f := range t.frames {
			g := *f
			g.regs = append([]Value(nil), f.regs...)
			g.defers = append([]deferred(nil), f.defers...)
			c.frames = append(c.frames, &g)
		}
		st.threads = append(st.threads, &c)
	}
	fi := p.info(fn)
	st.threads[0].frames = []*Frame{{fn: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], retTo: -1}}
	st.cur = 0
	return st
}

// ---- package initialisation

var initAllow = map[string]bool{}

func init() {
	for _, s := range []string{"errors", "io", "io/fs", "unicode/utf8", "unicode", "strconv", "strings", "bytes", "bufio", "math", "math/bits", "sort", "container/list", "encoding/binary", "encoding/hex", "hash", "hash/fnv", "context", "path", "path/filepath", "internal/filepathlite", "internal/oserror", "internal/bytealg", "internal/stringslite", "internal/strconv", "internal/itoa", "net/url", "net/textproto", "slices", "cmp", "maps", "iter", "unicode/utf16", "vendor/golang.org/x/net/http/httpguts", "internal/byteorder", "internal/errors", "time", "hash/crc32", "encoding/base64"} {
		initAllow[s] = true
	}
}

func (p *Program) initAllowed(path string) bool {
	if initAllow[path] {
		return true
	}
	// packages of the module and third-party modules
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			break
		}
		if path[i] == '.' {
			return true
		}
	}
	return false
}

func (p *Program) runInit(pkg *ssa.Package, verbose bool) error {
	x := newExplorer("init", nil, nil)
	x.initMode = true
	w := &Worker{p: p, x: x}
	st := &State{nextObj: 1, own: &owner{}, model: Model{}, names: map[string]int{}, limit: 200000000, sizeBound: 64}
	p.globals = map[*ssa.Global]int32{}
	var large []Value
	for _, q := range p.prog.AllPackages() {
		ok := p.initAllowed(q.Pkg.Path())
		var names []string
		for n := range q.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, isG := q.Members[n].(*ssa.Global)
			if !isG {
				continue
			}
			t := deref(g.Type())
			o := &Object{kind: kData, typ: t, name: g.String()}
			if ok {
				o.slots = zeroSlots(t, make(Agg, 0, slotsOf(t)))
			} else {
				n := slotsOf(t)
				var pz Value = Poison{"global " + g.String() + " of a package whose initialisation is not executed"}
				if n > 256 {
					// shared by all the large ones, and therefore owned by nobody
					if n > len(large) {
						pz = Poison{"a global of a package whose initialisation is not executed"}
						large = make([]Value, n)
						for i := range large {
							large[i] = pz
						}
					}
					o.slots = large[:n:n]
					p.globals[g] = st.newObj(o)
					o.own = &owner{}
					continue
				}
				o.slots = make([]Value, n)
				for i := range o.slots {
					o.slots[i] = pz
				}
				if isTypeBool(t) && g.Name() == "init$guard" {
					o.slots[0] = False
				}
			}
			p.globals[g] = st.newObj(o)
		}
	}
	fn := pkg.Func("init")
	fi := p.info(fn)
	st.threads = []*Thread{{id: 0, frames: []*Frame{{fn: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], retTo: -1}}}}
	w.st = st
	for {
		end, again := w.runSome()
		if again {
			continue
		}
		if end.kind == "done" {
			break
		}
		if end.kind != "unsupported" {
			return fmt.Errorf("package initialisation: %s %s", end.kind, end.msg)
		}
		// skip the initialiser expression that could not be executed
		t := st.thread()
		k := len(t.frames) - 1
		for k >= 0 && !(t.frames[k].fn.fn.Synthetic != "" && t.frames[k].fn.fn.Name() == "init") {
			k--
		}
		if k < 0 {
			return fmt.Errorf("package initialisation: %s", end.msg)
		}
		fr := t.frames[k]
		if verbose {
			fmt.Fprintf(os.Stderr, "init of %s: %s (at %s)\n", fr.fn.fn.Pkg.Pkg.Path(), end.msg, t.frames[len(t.frames)-1].fn.fn)
		}
		pc := fr.pc
		if k < len(t.frames)-1 {
			pc-- // the call had been advanced
		}
		t.frames = t.frames[:k+1]
		if fr.panic != nil {
			fr.panic = nil
		}
		in := fr.block.Instrs[pc]
		if v, ok := in.(ssa.Value); ok {
			fr.regs[fi2(fr, v)] = poisonOf(v.Type(), "initialiser not executed: "+end.msg)
		}
		switch in.(type) {
		case *ssa.If:
			// a condition on something that is not available: the alternative without it
			w.jump(fr, fr.block.Succs[1])
			continue
		case *ssa.Return, *ssa.Jump:
			return fmt.Errorf("package initialisation: %s", end.msg)
		}
		fr.pc = pc + 1
	}
	// freeze the heap
	p.base = make([]*Object, st.nextObj)
	frozen := &owner{}
	st.over.each(func(id int32, o *Object) {
		o.own = frozen
		p.base[id] = o
	})
	p.baseThreads = st.threads
	return nil
}

func fi2(fr *Frame, v ssa.Value) int32 { return fr.fn.idx[v] }

func isTypeBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func poisonOf(t types.Type, why string) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = Poison{why}
		}
		return r
	}
	return Poison{why}
}
