package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int64
	SatN      int64
	UnsatN    int64
	UnknownN  int64
	CacheHits int64
	TimeNs    int64
}

// Solver is one z3 process, spoken to over a pipe.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	defined  map[uint64]bool
	ndefs    int
	stats    *SolverStats
	softMs   int
	hardMs   int
	perQuery int
}

func NewSolver(stats *SolverStats) *Solver {
	return &Solver{stats: stats, softMs: 4000, hardMs: 60000}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.reset()
}

func (s *Solver) reset() {
	s.defined = map[uint64]bool{}
	s.ndefs = 0
	fmt.Fprintf(s.in, "(reset)\n(set-option :print-success false)\n(set-option :model.completion true)\n(set-option :timeout %d)\n", s.softMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constText(e *Expr) string {
	if e.w == 0 {
		if e.val == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(e.val, 10) + " " + strconv.Itoa(int(e.w)) + ")"
}

func ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constText(e)
	case OVar:
		return "v" + strconv.FormatUint(e.val, 10)
	}
	return "n" + strconv.FormatUint(e.id, 10)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func fpOf(e *Expr) string { return "((_ to_fp " + fpSort(e.w) + ") " + ref(e) + ")" }

// body gives the SMT-LIB text of one node over references to its children.
func body(e *Expr) string {
	a := func(i int) string { return ref(e.a[i]) }
	switch e.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", e.aux+e.w-1, e.aux, a(0))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a[0].w, a(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a[0].w, a(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		op := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[e.op]
		return "" + "(" + op + " RNE " + fpOf(e.a[0]) + " " + fpOf(e.a[1]) + ")"
	case OFEq:
		return "(fp.eq " + fpOf(e.a[0]) + " " + fpOf(e.a[1]) + ")"
	case OFLt:
		return "(fp.lt " + fpOf(e.a[0]) + " " + fpOf(e.a[1]) + ")"
	case OFLe:
		return "(fp.leq " + fpOf(e.a[0]) + " " + fpOf(e.a[1]) + ")"
	case OFFromS:
		return "((_ to_fp " + fpSort(e.w) + ") RNE " + a(0) + ")"
	case OFFromU:
		return "((_ to_fp_unsigned " + fpSort(e.w) + ") RNE " + a(0) + ")"
	case OFToF:
		return "((_ to_fp " + fpSort(e.w) + ") RNE " + fpOf(e.a[0]) + ")"
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", e.w, fpOf(e.a[0]))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", e.w, fpOf(e.a[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opName[e.op])
	for i := range e.a {
		if e.a[i] != nil {
			sb.WriteByte(' ')
			sb.WriteString(a(i))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func isFPResult(op Op) bool {
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFFromS, OFFromU, OFToF:
		return true
	}
	return false
}

// define emits the definitions e needs (iteratively, children first).
func (s *Solver) define(e *Expr) {
	type item struct {
		e *Expr
		i int
	}
	if e.op == OConst {
		return
	}
	stack := []item{{e, 0}}
	for len(stack) > 0 {
		t := &stack[len(stack)-1]
		x := t.e
		if x.op == OConst || s.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		if t.i < 3 && x.op != OVar {
			c := x.a[t.i]
			t.i++
			if c != nil && c.op != OConst && !s.defined[c.id] {
				stack = append(stack, item{c, 0})
			}
			continue
		}
		s.defined[x.id] = true
		s.ndefs++
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", ref(x), sortOf(x.w))
		} else if isFPResult(x.op) {
			// a fresh bit pattern whose floating-point value is the result; canonical NaN
			n := ref(x)
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n(assert (= ((_ to_fp %s) %s) %s))\n", n, sortOf(x.w), fpSort(x.w), n, body(x))
		} else {
			fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", ref(x), sortOf(x.w), body(x))
		}
		stack = stack[:len(stack)-1]
	}
}

// slice returns the constraints of pc connected to goal by shared variables.
func sliceBy(pc []*Expr, goal *Expr) []*Expr {
	if goal.vars == nil {
		return nil
	}
	seen := map[uint32]bool{}
	for _, v := range goal.vars.ids {
		seen[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] || c.vars == nil {
				continue
			}
			hit := false
			for _, v := range c.vars.ids {
				if seen[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars.ids {
					if !seen[v] {
						seen[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// Check decides pc ∧ goal. On Sat, the returned model covers the variables of the slice; the
// caller overlays it on a model of the remaining constraints.
func (s *Solver) Check(pc []*Expr, goal *Expr) (Result, Model) {
	if goal.isFalse() {
		return Unsat, nil
	}
	cs := append(sliceBy(pc, goal), goal)
	key := cacheKey(cs)
	if v, ok := queryCache.Load(key); ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		c := v.(cached)
		return c.r, c.m
	}
	atomic.AddInt64(&s.stats.Queries, 1)
	t := time.Now()
	r, m := s.query(cs, s.softMs)
	if r == Unknown {
		if d := os.Getenv("VERIF_DUMPQ"); d != "" {
			dumpQuery(fmt.Sprintf("%s/%d.smt2", d, atomic.LoadInt64(&s.stats.Queries)), cs)
		}
		r, m = s.oneShot(cs)
	}
	atomic.AddInt64(&s.stats.TimeNs, int64(time.Since(t)))
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
		// trust, but verify: the model must satisfy the slice
		ev := newEval(m)
		for _, c := range cs {
			if hasFPRelation(c) {
				continue
			}
			if ev.eval(c) == 0 {
				return Unknown, nil
			}
		}
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
		return r, m
	}
	if atomic.AddInt64(&cacheN, 1) < 1500000 {
		queryCache.Store(key, cached{r, m})
	}
	return r, m
}

// Terms are shared, so that a query is the set of the identities of its conjuncts; the answers of
// the solver are kept under it. Models are not modified once they are made.
type cached struct {
	r Result
	m Model
}

var queryCache sync.Map
var cacheN int64

func cacheKey(cs []*Expr) string {
	ids := make([]uint64, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := make([]byte, 0, 8*len(ids))
	for i, x := range ids {
		if i > 0 && x == ids[i-1] {
			continue
		}
		b = binary.LittleEndian.AppendUint64(b, x)
	}
	return string(b)
}

func hasFPRelation(e *Expr) bool { return false }

func (s *Solver) query(cs []*Expr, ms int) (Result, Model) {
	if s.cmd == nil {
		s.start()
	}
	if s.ndefs > 60000 {
		s.reset()
	}
	hasFP := false
	for _, c := range cs {
		n := s.ndefs
		s.define(c)
		_ = n
	}
	_ = hasFP
	fmt.Fprintln(s.in, "(push 1)")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(c))
	}
	fmt.Fprintln(s.in, "(check-sat)")
	if err := s.in.Flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch {
	case line == "sat":
		res = Sat
		m, err = s.getModel(cs)
		if err != nil {
			s.Close()
			return Unknown, nil
		}
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.Close()
		solverErrors = append(solverErrors, line)
		return Unknown, nil
	}
	fmt.Fprintln(s.in, "(pop 1)")
	s.in.Flush()
	return res, m
}

var solverErrors []string

// dumpQuery writes a query to a file, for looking at it.
func dumpQuery(file string, cs []*Expr) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	defer f.Close()
	t := &Solver{in: bufio.NewWriter(f), softMs: 10000}
	t.reset()
	for _, c := range cs {
		t.define(c)
	}
	for _, c := range cs {
		fmt.Fprintf(t.in, "(assert %s)\n", ref(c))
	}
	fmt.Fprintln(t.in, "(check-sat)")
	t.in.Flush()
}

func (s *Solver) readLine() (string, error) {
	line, err := s.out.ReadString('\n')
	return strings.TrimSpace(line), err
}

func (s *Solver) getModel(cs []*Expr) (Model, error) {
	seen := map[uint32]bool{}
	var vs []*Expr
	for _, c := range cs {
		if c.vars == nil {
			continue
		}
		for _, v := range c.vars.ids {
			if !seen[v] {
				seen[v] = true
				varMu.Lock()
				vs = append(vs, varExprs[v])
				varMu.Unlock()
			}
		}
	}
	m := Model{}
	if len(vs) == 0 {
		return m, nil
	}
	s.in.WriteString("(get-value (")
	for _, v := range vs {
		s.in.WriteString(ref(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	// read a balanced s-expression
	depth, got := 0, false
	var sb strings.Builder
	for !got || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if b == '(' {
			depth++
			got = true
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
	}
	s.out.ReadString('\n')
	txt := strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String())
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] == 'v' && len(f[i]) > 1 {
			id, err := strconv.ParseUint(f[i][1:], 10, 32)
			if err != nil {
				continue
			}
			t := f[i+1]
			switch {
			case t == "true":
				m[uint32(id)] = 1
			case t == "false":
				m[uint32(id)] = 0
			case strings.HasPrefix(t, "#x"):
				v, _ := strconv.ParseUint(t[2:], 16, 64)
				m[uint32(id)] = v
			case strings.HasPrefix(t, "#b"):
				v, _ := strconv.ParseUint(t[2:], 2, 64)
				m[uint32(id)] = v
			case t == "(" && i+3 < len(f) && f[i+2] == "_" && strings.HasPrefix(f[i+3], "bv"):
				v, _ := strconv.ParseUint(f[i+3][2:], 10, 64)
				m[uint32(id)] = v
			}
		}
	}
	return m, nil
}

// oneShot runs the query in a fresh solver process with the non-incremental strategy.
func (s *Solver) oneShot(cs []*Expr) (Result, Model) {
	t := &Solver{stats: s.stats, softMs: s.hardMs}
	t.start()
	defer t.Close()
	for _, c := range cs {
		t.define(c)
	}
	for _, c := range cs {
		fmt.Fprintf(t.in, "(assert %s)\n", ref(c))
	}
	fmt.Fprintln(t.in, "(check-sat)")
	if t.in.Flush() != nil {
		return Unknown, nil
	}
	line, err := t.readLine()
	if err != nil {
		return Unknown, nil
	}
	switch line {
	case "sat":
		m, err := t.getModel(cs)
		if err != nil {
			return Unknown, nil
		}
		return Sat, m
	case "unsat":
		return Unsat, nil
	}
	return Unknown, nil
}

func (s *SolverStats) Seconds() float64 { return float64(atomic.LoadInt64(&s.TimeNs)) / 1e9 }
func (s *SolverStats) Unknowns() int64  { return atomic.LoadInt64(&s.UnknownN) }
func (s *SolverStats) String() string {
	return fmt.Sprintf("%d queries (%d sat, %d unsat, %d unknown, %d cached) %.1fs", s.Queries, s.SatN, s.UnsatN, s.UnknownN, s.CacheHits, s.Seconds())
}
