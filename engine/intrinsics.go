package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	fn      *ssa.Function
	args    []Value
	retTo   int32
	isDefer bool
	instr   *ssa.Call
	fr      *Frame
}

type pushedT struct{}

var pushed Value = &pushedT{}

type intrinsic func(w *Worker, c *icall) Value

const vrtPath = "github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/"

func (w *Worker) icPush(c *icall, fn *ssa.Function, args, free []Value) Value {
	if c.fr != nil {
		c.fr.pc++
	}
	w.pushCall(fn, args, free, c.retTo, c.isDefer)
	return pushed
}

type intrEnt struct{ f intrinsic }

func (w *Worker) lookupIntrinsic(fn *ssa.Function) intrinsic {
	if v, ok := w.p.icache.Load(fn); ok {
		return v.(intrEnt).f
	}
	f := w.findIntrinsic(fn)
	w.p.icache.Store(fn, intrEnt{f})
	return f
}

func (w *Worker) findIntrinsic(fn *ssa.Function) intrinsic {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.String()
	if strings.HasPrefix(name, vrtPath+"vrt.") {
		if f, ok := vrtIntrinsics[name[len(vrtPath+"vrt."):]]; ok {
			return f
		}
		return nil
	}
	if f, ok := stdIntrinsics[name]; ok {
		return f
	}
	if t, ok := redirects[name]; ok {
		pk, fnm, _ := strings.Cut(t, ".")
		return func(w *Worker, c *icall) Value {
			p := w.p.pkgs[vrtPath+pk]
			if p == nil || p.Func(fnm) == nil {
				unsupported("%s (no %s)", name, t)
			}
			return w.icPush(c, p.Func(fnm), c.args, nil)
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && !w.p.initAllowed(fn.Pkg.Pkg.Path()) {
		return func(w *Worker, c *icall) Value { return nil }
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntrinsic(fn.Name())
	}
	if strings.HasPrefix(name, "math.") {
		if f, ok := mathFns[fn.Name()]; ok {
			return func(w *Worker, c *icall) Value {
				e := c.args[0].(*Expr)
				if !e.isConst() && fn.Name() == "Abs" {
					return BAnd(e, Const(64, 1<<63-1))
				}
				if !e.isConst() {
					unsupported("math.%s of a symbolic value", fn.Name())
				}
				return Const(64, math.Float64bits(f(math.Float64frombits(e.val))))
			}
		}
	}
	if strings.HasPrefix(name, "internal/godebug.") || strings.HasPrefix(name, "(*internal/godebug.") || strings.HasPrefix(name, "internal/race.") || strings.HasPrefix(name, "internal/msan.") || strings.HasPrefix(name, "internal/asan.") {
		return func(w *Worker, c *icall) Value {
			r := fn.Signature.Results()
			switch r.Len() {
			case 0:
				return nil
			case 1:
				return zeroValue(r.At(0).Type())
			}
			return zeroValue(r)
		}
	}
	return nil
}

func math2(c *icall, f func(a, b float64) float64) Value {
	a, b := c.args[0].(*Expr), c.args[1].(*Expr)
	if !a.isConst() || !b.isConst() {
		unsupported("%s of a symbolic value", c.fn.String())
	}
	return Const(64, math.Float64bits(f(math.Float64frombits(a.val), math.Float64frombits(b.val))))
}

var mathFns = map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Round": math.Round, "Exp2": math.Exp2, "Log1p": math.Log1p, "Cbrt": math.Cbrt}

// std functions that are executed as Go code of the run-time support instead
var redirects = map[string]string{
	"internal/bytealg.IndexByte":           "vrt.XIndexByte",
	"internal/bytealg.IndexByteString":     "vrt.XIndexByteString",
	"internal/bytealg.LastIndexByte":       "vrt.XLastIndexByte",
	"internal/bytealg.LastIndexByteString": "vrt.XLastIndexByteString",
	"internal/bytealg.Count":               "vrt.XCount",
	"internal/bytealg.CountString":         "vrt.XCountString",
	"internal/bytealg.Compare":             "vrt.XCompare",
	"internal/bytealg.CompareString":       "vrt.XCompareString",
	"internal/bytealg.IndexString":         "vrt.XIndexString",
	"internal/bytealg.Index":               "vrt.XIndex",
	"strings.Index":                        "vrt.XIndexString",
	"internal/stringslite.Index":           "vrt.XIndexString",
	"bytes.Index":                          "vrt.XIndex",
	"errors.Is":                            "vrt.XErrorsIs",
	"errors.is":                            "vrt.XErrorsIs",
	"errors.As":                            "vrt.XErrorsAs",
	"sort.Slice":                           "vrt.XSortSlice",
	"sort.SliceStable":                     "vrt.XSortSlice",
	"sort.SliceIsSorted":                   "vrt.XSliceIsSorted",
	"fmt.Sprintf":                          "fmt.Sprintf",
	"fmt.Sprint":                           "fmt.Sprint",
	"fmt.Sprintln":                         "fmt.Sprintln",
	"fmt.Errorf":                           "fmt.Errorf",
	"fmt.Fprintf":                          "fmt.Fprintf",
	"fmt.Println":                          "fmt.Println",
	"fmt.Printf":                           "fmt.Printf",
	"sort.Strings":                         "vrt.XSortStrings",
	"sort.Ints":                            "vrt.XSortInts",
}

func (w *Worker) symVar(name string, width uint8) *Expr {
	st := w.st
	if w.x.initMode {
		unsupported("symbolic input in init")
	}
	k := st.names[name]
	st.names[name] = k + 1
	return Var(fmt.Sprintf("%s#%d_%d", name, k, width), width)
}

func nameArg(v Value) string {
	s, _ := v.(Str).conc()
	return s
}

func symNum(kind string, width uint8) intrinsic {
	return func(w *Worker, c *icall) Value {
		n := nameArg(c.args[0])
		v := w.symVar(n, width)
		w.st.addInput(Input{Kind: kind, Name: n, Exprs: []*Expr{v}})
		return v
	}
}

func symSeq(kind string) intrinsic {
	return func(w *Worker, c *icall) Value {
		n := nameArg(c.args[0])
		ln := int(w.concInt(c.args[1].(*Expr), true))
		es := make([]*Expr, ln)
		for i := range es {
			es[i] = w.symVar(n, 8)
		}
		w.st.addInput(Input{Kind: kind, Name: n, Exprs: es})
		if kind == "string" {
			if ln == 0 {
				return Str{}
			}
			return Str{b: es}
		}
		return w.newBytes(es)
	}
}

func noop(w *Worker, c *icall) Value { return nil }

var vrtIntrinsics map[string]intrinsic
var stdIntrinsics map[string]intrinsic

func init() {
	vrtIntrinsics = map[string]intrinsic{
		"U8": symNum("u8", 8), "U16": symNum("u16", 16), "U32": symNum("u32", 32), "U64": symNum("u64", 64),
		"BoolV": symNum("bool", 0),
		"Choose": func(w *Worker, c *icall) Value {
			n := int(w.concInt(c.args[1].(*Expr), true))
			if n <= 1 {
				return Const(64, 0)
			}
			if w.x.initMode {
				unsupported("choice in init")
			}
			name := nameArg(c.args[0])
			st := w.st
			for k := n - 1; k >= 1; k-- {
				m := st.clone()
				m.addInput(Input{Kind: "u64", Name: name, Exprs: []*Expr{Const(64, uint64(k))}})
				fr := m.top()
				if c.instr == nil || c.retTo < 0 {
					unsupported("choice outside a plain call")
				}
				fr.regs[c.retTo] = Const(64, uint64(k))
				fr.pc++
				m.forks++
				w.x.push(m)
			}
			st.forks++
			st.addInput(Input{Kind: "u64", Name: name, Exprs: []*Expr{Const(64, 0)}})
			return Const(64, 0)
		},
		"Bytes": symSeq("bytes"), "String": symSeq("string"),
		"Conc": func(w *Worker, c *icall) Value {
			return Const(64, uint64(w.concInt(c.args[0].(*Expr), true)))
		},
		"Or":  func(w *Worker, c *icall) Value { return Or(c.args[0].(*Expr), c.args[1].(*Expr)) },
		"And": func(w *Worker, c *icall) Value { return And(c.args[0].(*Expr), c.args[1].(*Expr)) },
		"Not": func(w *Worker, c *icall) Value { return Not(c.args[0].(*Expr)) },
		"Ite": func(w *Worker, c *icall) Value {
			return Ite(c.args[0].(*Expr), c.args[1].(*Expr), c.args[2].(*Expr))
		},
		"Assume": func(w *Worker, c *icall) Value { w.assume(c.args[0].(*Expr)); return nil },
		"Assert": func(w *Worker, c *icall) Value { w.doAssert(c.args[0].(*Expr), c.args[1]); return nil },
		"Cover": func(w *Worker, c *icall) Value {
			x := w.x
			x.mu.Lock()
			x.covers[nameArg(c.args[0])] = true
			x.mu.Unlock()
			return nil
		},
		"MustCover": func(w *Worker, c *icall) Value {
			x := w.x
			x.mu.Lock()
			x.must[nameArg(c.args[0])] = true
			x.mu.Unlock()
			return nil
		},
		"ObsInt": func(w *Worker, c *icall) Value {
			w.st.obs = append(w.st.obs, Obs{Name: nameArg(c.args[0]), Exprs: []*Expr{c.args[1].(*Expr)}})
			return nil
		},
		"ObsStr": func(w *Worker, c *icall) Value {
			w.st.obs = append(w.st.obs, Obs{Name: nameArg(c.args[0]), Exprs: c.args[1].(Str).Bytes(), Str: true})
			return nil
		},
		"Thorough": func(w *Worker, c *icall) Value { return Bool(w.x.pool != nil && w.x.pool.thorough) },
		"Known": func(w *Worker, c *icall) Value {
			id := nameArg(c.args[0])
			if w.x.pool == nil || !w.x.pool.knownIDs[id] {
				return nil
			}
			if w.branch(c.args[1].(*Expr)) {
				w.x.mu.Lock()
				w.x.known[id] = true
				w.x.mu.Unlock()
				endPath("known", "%s", id)
			}
			return nil
		},
		"InEngine": func(w *Worker, c *icall) Value { return True },
		"SetLimit": func(w *Worker, c *icall) Value {
			w.st.limit = w.st.steps + w.concInt(c.args[0].(*Expr), true)
			return nil
		},
		"MustTerminate": func(w *Worker, c *icall) Value { w.st.mustTerm = c.args[0].(*Expr).isTrue(); return nil },
		"SizeBound": func(w *Worker, c *icall) Value {
			w.st.sizeBound = int(w.concInt(c.args[0].(*Expr), true))
			return nil
		},
		"MaxCalls": func(w *Worker, c *icall) Value {
			w.st.maxCalls = int(w.concInt(c.args[0].(*Expr), true))
			return nil
		},
		"MaxAlloc": func(w *Worker, c *icall) Value {
			w.st.maxAlloc = int(w.concInt(c.args[0].(*Expr), true))
			return nil
		},
		"Bound": func(w *Worker, c *icall) Value {
			w.x.mu.Lock()
			w.x.bounds[nameArg(c.args[0])] = true
			w.x.mu.Unlock()
			return nil
		},
		"registerMain": noop,
		"HBAcq":        func(w *Worker, c *icall) Value { w.hbAcquireAt(ptrKey(c.args[0].(Ptr))); return nil },
		"HBRel":        func(w *Worker, c *icall) Value { w.hbReleaseAt(ptrKey(c.args[0].(Ptr))); return nil },
		"HBFork":       func(w *Worker, c *icall) Value { w.hbFork(int(w.concInt(c.args[0].(*Expr), true))); return nil },
		"HBEnd":        noop,
		"HBJoin":       func(w *Worker, c *icall) Value { w.hbJoin(int(w.concInt(c.args[0].(*Expr), true))); return nil },
		"Race": func(w *Worker, c *icall) Value {
			if w.st.race == nil {
				w.st.race = &raceState{}
			}
			return nil
		},
		"newThread": func(w *Worker, c *icall) Value {
			fn := w.p.vrt.Func("runThread")
			fi := w.p.info(fn)
			id := len(w.st.threads)
			fr := &Frame{fn: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], retTo: -1}
			fr.regs[0] = c.args[1]
			w.st.threads = append(w.st.threads, &Thread{id: id, frames: []*Frame{fr}})
			return nil
		},
		"transfer": func(w *Worker, c *icall) Value {
			c.fr.pc++
			w.st.cur = int(w.concInt(c.args[1].(*Expr), true))
			return pushed
		},
		"exitTo": func(w *Worker, c *icall) Value {
			t := w.st.thread()
			t.done = true
			t.frames = nil
			w.st.cur = int(w.concInt(c.args[0].(*Expr), true))
			return pushed
		},
		"chanReady": func(w *Worker, c *icall) Value {
			ch, ok := c.args[0].(Iface).v.(ChanV)
			if !ok || ch.obj == 0 {
				return False
			}
			o := w.st.get(ch.obj)
			if o.closed {
				return True
			}
			if c.args[1].(*Expr).isTrue() {
				if o.ccap == 0 {
					unsupported("send on an unbuffered channel")
				}
				return Bool(len(o.buf) < o.ccap)
			}
			return Bool(len(o.buf) > 0)
		},
		"sliceLen": func(w *Worker, c *icall) Value {
			if sl, ok := c.args[0].(Iface).v.(SliceV); ok {
				return Const(64, uint64(sl.len))
			}
			unsupported("sort of something that is not a slice")
			return nil
		},
		"swapAt": func(w *Worker, c *icall) Value {
			f := c.args[0].(Iface)
			et := f.t.Underlying().(*types.Slice).Elem()
			sl := f.v.(SliceV)
			pi := Ptr{sl.obj, sl.off + int32(c.args[1].(*Expr).val)*sl.stride}
			pj := Ptr{sl.obj, sl.off + int32(c.args[2].(*Expr).val)*sl.stride}
			a, b := w.load(pi, et), w.load(pj, et)
			w.store(pi, b, et)
			w.store(pj, a, et)
			return nil
		},
		"assignTo": func(w *Worker, c *icall) Value {
			e, t := c.args[0].(Iface), c.args[1].(Iface)
			et := deref(t.t)
			if types.IsInterface(et) {
				if !types.Implements(e.t, et.Underlying().(*types.Interface)) {
					return False
				}
				w.store(t.v.(Ptr), e, et)
				return True
			}
			if !types.Identical(e.t, et) {
				return False
			}
			w.store(t.v.(Ptr), e.v, et)
			return True
		},
		"Close": func(w *Worker, c *icall) Value {
			return w.builtin(nil, "close", []Value{c.args[0].(Iface).v}, nil, nil)
		},
	}
	ret0 := func(w *Worker, c *icall) Value { return c.args[0] }
	stdIntrinsics = map[string]intrinsic{
		"(*sync.Mutex).Lock": noop, "(*sync.Mutex).Unlock": noop,
		"(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop, "(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(w *Worker, c *icall) Value {
			p := c.args[0].(Ptr)
			o := w.st.getMut(p.obj)
			if e, ok := o.slots[p.off].(*Expr); ok && e.isConst() && e.val != 0 {
				return nil
			}
			if e, ok := o.slots[p.off].(*Expr); ok {
				o.slots[p.off] = Const(e.w, 1)
			} else {
				unsupported("sync.Once layout")
			}
			cl := c.args[1].(*Closure)
			return w.icPush(c, cl.fn, nil, cl.free)
		},
		"(*sync.Pool).Get": func(w *Worker, c *icall) Value {
			p := c.args[0].(Ptr)
			o := w.st.get(p.obj)
			n := slotsOf(deref(c.fn.Signature.Recv().Type()))
			if pz, ok := o.slots[int(p.off)+n-1].(Poison); ok {
				unsupported("%s", pz.why)
			}
			cl, _ := o.slots[int(p.off)+n-1].(*Closure)
			if cl == nil {
				return Iface{}
			}
			return w.icPush(c, cl.fn, nil, cl.free)
		},
		"(*sync.Pool).Put":             noop,
		"(*strings.Builder).copyCheck": noop,
		"internal/abi.NoEscape":        ret0,
		"internal/abi.Escape":          ret0,
		"runtime.KeepAlive":            noop,
		"runtime.SetFinalizer":         noop,
		"runtime.GC":                   noop,
		"internal/bytealg.MakeNoZero": func(w *Worker, c *icall) Value {
			return w.makeSlice(types.NewSlice(types.Typ[types.Uint8]), c.args[0].(*Expr), c.args[0].(*Expr), types.Typ[types.Int])
		},
		"internal/bytealg.Equal": func(w *Worker, c *icall) Value {
			return strEq(normStr(w.bytesOf(c.args[0].(SliceV))), normStr(w.bytesOf(c.args[1].(SliceV))))
		},
		"bytes.Equal": func(w *Worker, c *icall) Value {
			return strEq(normStr(w.bytesOf(c.args[0].(SliceV))), normStr(w.bytesOf(c.args[1].(SliceV))))
		},
		"(*sync/atomic.Value).Load": func(w *Worker, c *icall) Value {
			p := c.args[0].(Ptr)
			if p.obj == 0 {
				w.runtimePanic("invalid memory address or nil pointer dereference")
			}
			return w.st.get(p.obj).slots[p.off]
		},
		"(*sync/atomic.Value).Store": func(w *Worker, c *icall) Value {
			p := c.args[0].(Ptr)
			if p.obj == 0 {
				w.runtimePanic("invalid memory address or nil pointer dereference")
			}
			w.st.getMut(p.obj).slots[p.off] = c.args[1]
			return nil
		},
		"net/http.cookieNumWithinMax":        func(w *Worker, c *icall) Value { return True },
		"hash/crc32.archAvailableIEEE":       func(w *Worker, c *icall) Value { return False },
		"hash/crc32.archAvailableCastagnoli": func(w *Worker, c *icall) Value { return False },
		"math.Max":                           func(w *Worker, c *icall) Value { return math2(c, math.Max) },
		"math.Min":                           func(w *Worker, c *icall) Value { return math2(c, math.Min) },
		"math.Float64bits":                   ret0,
		"math.Float64frombits":               ret0,
		"math.Float32bits":                   ret0,
		"math.Float32frombits":               ret0,
		"(syscall.Errno).Error": func(w *Worker, c *icall) Value {
			e := c.args[0].(*Expr)
			if !e.isConst() {
				unsupported("text of a symbolic errno")
			}
			return CStr(syscall.Errno(e.val).Error())
		},
		"context.WithValue": func(w *Worker, c *icall) Value {
			pkg := c.fn.Pkg
			vt := pkg.Pkg.Scope().Lookup("valueCtx").Type()
			p := w.newData(vt)
			o := w.st.getMut(p.obj)
			if c.args[0].(Iface).t == nil {
				w.runtimePanic("cannot create context from nil parent")
			}
			if k := c.args[1].(Iface); k.t == nil {
				w.runtimePanic("nil key")
			}
			o.slots[0], o.slots[1], o.slots[2] = c.args[0], c.args[1], c.args[2]
			return Iface{t: w.p.ptrTo(vt), v: p}
		},
		// time: an instant is its virtual nanoseconds, kept in ext
		"time.Unix": func(w *Worker, c *icall) Value {
			s, n := c.args[0].(*Expr), c.args[1].(*Expr)
			return Agg{Const(64, 0), Add(Mul(s, Const(64, 1000000000)), n), Ptr{}}
		},
		"time.UnixMilli": func(w *Worker, c *icall) Value {
			return Agg{Const(64, 0), Mul(c.args[0].(*Expr), Const(64, 1000000)), Ptr{}}
		},
		"(time.Time).UnixNano":  func(w *Worker, c *icall) Value { return tExt(c.args[0]) },
		"(time.Time).Unix":      func(w *Worker, c *icall) Value { return SDiv(tExt(c.args[0]), Const(64, 1000000000)) },
		"(time.Time).UnixMilli": func(w *Worker, c *icall) Value { return SDiv(tExt(c.args[0]), Const(64, 1000000)) },
		"(time.Time).UnixMicro": func(w *Worker, c *icall) Value { return SDiv(tExt(c.args[0]), Const(64, 1000)) },
		"(time.Time).Nanosecond": func(w *Worker, c *icall) Value {
			return SRem(tExt(c.args[0]), Const(64, 1000000000))
		},
		"(time.Time).Second": func(w *Worker, c *icall) Value {
			return SRem(SDiv(tExt(c.args[0]), Const(64, 1000000000)), Const(64, 60))
		},
		"(time.Time).Sub":    func(w *Worker, c *icall) Value { return Sub(tExt(c.args[0]), tExt(c.args[1])) },
		"(time.Time).After":  func(w *Worker, c *icall) Value { return SLt(tExt(c.args[1]), tExt(c.args[0])) },
		"(time.Time).Before": func(w *Worker, c *icall) Value { return SLt(tExt(c.args[0]), tExt(c.args[1])) },
		"(time.Time).Equal":  func(w *Worker, c *icall) Value { return Eq(tExt(c.args[0]), tExt(c.args[1])) },
		"(time.Time).IsZero": func(w *Worker, c *icall) Value { return Eq(tExt(c.args[0]), Const(64, 0)) },
		"(time.Time).UTC":    ret0,
		"(time.Time).Local":  ret0,
		"(time.Time).Add": func(w *Worker, c *icall) Value {
			return Agg{Const(64, 0), Add(tExt(c.args[0]), c.args[1].(*Expr)), Ptr{}}
		},
		"(time.Time).Truncate": func(w *Worker, c *icall) Value {
			t, d := tExt(c.args[0]), c.args[1].(*Expr)
			return Agg{Const(64, 0), Sub(t, SRem(t, d)), Ptr{}}
		},
		"(time.Time).Format": func(w *Worker, c *icall) Value {
			t := tExt(c.args[0])
			l, ok := c.args[1].(Str).conc()
			if !t.isConst() || !ok {
				unsupported("time.Format of a symbolic instant")
			}
			return CStr(time.Unix(0, int64(t.val)).UTC().Format(l))
		},
		"(time.Duration).Milliseconds": func(w *Worker, c *icall) Value { return SDiv(c.args[0].(*Expr), Const(64, 1000000)) },
		"(time.Duration).Seconds": func(w *Worker, c *icall) Value {
			e := c.args[0].(*Expr)
			if !e.isConst() {
				unsupported("Duration.Seconds of a symbolic value")
			}
			return Const(64, math.Float64bits(time.Duration(e.val).Seconds()))
		},
	}
}

func tExt(v Value) *Expr { return v.(Agg)[1].(*Expr) }

func (p *Program) ptrTo(t types.Type) types.Type {
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	if v, ok := p.ptrs[t]; ok {
		return v
	}
	v := types.NewPointer(t)
	p.ptrs[t] = v
	return v
}

func (w *Worker) doAssert(c *Expr, msg Value) {
	if c.isTrue() {
		w.x.countAssert()
		return
	}
	m := nameArg(msg)
	if w.x.initMode {
		unsupported("assertion in init: %s", m)
	}
	w.x.countAssert()
	st := w.st
	if v, ok := st.facts.get(c); ok && v {
		return
	}
	if newEval(st.model).eval(c) == 0 {
		w.x.violation(w, m)
		// go on with the executions that satisfy it
		if c.isFalse() {
			endPath("violation", "%s", m)
		}
		w.assume(c)
		return
	}
	res, mod := w.solver.Check(st.pc, Not(c))
	switch res {
	case Unsat:
		st.facts.set(c, true)
		st.facts.set(Not(c), false)
		return
	case Sat:
		w.x.violationM(w, m, overlay(st.model, mod))
		st.addPC(c)
	default:
		w.x.note("solver gave no answer on an assertion (" + m + "); it is outside the bound")
		st.addPC(c)
	}
}

func (x *Explorer) countAssert() {
	x.mu.Lock()
	x.asserts++
	x.mu.Unlock()
}

func atomicIntrinsic(name string) intrinsic {
	return func(w *Worker, c *icall) Value {
		if len(c.args) == 0 {
			unsupported("sync/atomic.%s", name)
		}
		p, ok := c.args[0].(Ptr)
		if !ok || c.fn.Signature.Recv() != nil {
			unsupported("sync/atomic.%s", name)
		}
		if p.obj == 0 {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		o := w.st.getMut(p.obj)
		old := o.slots[p.off]
		switch {
		case strings.HasPrefix(name, "Load"):
			return old
		case strings.HasPrefix(name, "Store"):
			o.slots[p.off] = c.args[1]
			return nil
		case strings.HasPrefix(name, "Add"):
			n := Add(old.(*Expr), c.args[1].(*Expr))
			o.slots[p.off] = n
			return n
		case strings.HasPrefix(name, "Swap"):
			o.slots[p.off] = c.args[1]
			return old
		case strings.HasPrefix(name, "CompareAndSwap"):
			eq := w.equal(old, c.args[1])
			if w.branch(eq) {
				w.st.getMut(p.obj).slots[p.off] = c.args[2]
				return True
			}
			return False
		}
		unsupported("sync/atomic.%s", name)
		return nil
	}
}
