// Package c15: profile steps are delivered once, in order and as a tree.
package c15

import (
	"context"
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt netio strace

func setup(keep, bulk int) *conf.Configure {
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	c := hconf.Set("stuck_service_base_time_ms=1000")
	c.ObjHash = 77
	c.ProfileStepMaxKeepInMemoryCount, c.ProfileStepMaxCount = keep, bulk
	return c
}

func collect() *hcommon.Collected {
	vrt.RunFor(400)
	return hcommon.Collect(net.Datagrams)
}

// bulks checks the size of the profile packs of a service and returns its steps. The packs may arrive in
// any order; they are taken in that of their first steps among the indexes.
func bulks(got *hcommon.Collected, txid int64, bulk int, indexes []int32) []hcommon.Step {
	var packs [][]hcommon.Step
	for _, p := range got.Packs {
		if p.Profile != nil && p.Profile.Txid == txid {
			vrt.Assert(len(p.Profile.Steps) > 0 && len(p.Profile.Steps) <= bulk, "a profile pack holds more steps than allowed, or none")
			vrt.Assert(p.Profile.Service != 0 && got.Text("service", p.Profile.Service) == "/a", "a profile pack does not carry the name of its service")
			vrt.Assert(p.Profile.ObjHash == 77, "a profile pack does not carry the object of the agent")
			packs = append(packs, p.Profile.Steps)
		}
	}
	var r []hcommon.Step
	for _, index := range indexes {
		for i, ss := range packs {
			if ss != nil && ss[0].Index == index {
				r = append(r, ss...)
				packs[i] = nil
				break
			}
		}
	}
	for _, ss := range packs {
		r = append(r, ss...)
	}
	return r
}

// open is a step that has been started.
type open struct {
	m     *netdata.MethodStep
	a     *netdata.ApiCallStep
	index int32
	start int32
	id    int
}

// want is a step as it is to be delivered.
type want struct {
	kind                         byte
	index, parent, start, elapse int32
	text, err                    string
}

// H_Tree: histories of steps.
func H_Tree() {
	n, kinds := 4, 5
	if vrt.Thorough() {
		n = 5
	}
	vrt.Bound("all properly nested histories of n operations (message, hashed message, parameterised message, start and end of methods and api calls), 1..3 steps in memory, bulks of 1..3 (5 and 4 for some), symbolic time gaps, steps left open at the end")
	k := vrt.Choose("sizes", 6)
	keep, bulk := []int{1, 2, 3, 2, 5, 3}[k], []int{3, 2, 1, 3, 4, 2}[k]
	setup(keep, bulk)
	t0 := vrt.NowNS()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	tctx := tctxmanager.GetTraceContext(ctx)
	var exp []want
	var stack []open
	next := int32(1)
	names := []string{"a", "b", "c", "d", "e", "f"}
	for i := 0; i < n; i++ {
		if i == 0 {
			vrt.Advance(int64(vrt.U8("ms")) % 100)
		} else {
			vrt.Advance(int64(i * 3))
		}
		now := int32((vrt.NowNS() - t0) / 1000000)
		parent := int32(0)
		if len(stack) > 0 {
			parent = stack[len(stack)-1].index
		}
		w := want{index: next, parent: parent, start: now, text: names[i]}
		switch op := vrt.Choose("op", kinds+1); op {
		case 0:
			strace.AddMessageStep(ctx, names[i])
			w.kind = 3
			exp = append(exp, w)
			next++
		case 1:
			strace.AddHashedMessageStep(ctx, names[i], 7, 8)
			w.kind, w.elapse = 9, 8
			exp = append(exp, w)
			next++
		case 2:
			strace.AddPMessageStep(ctx, netdata.PMSG_WARN, names[i], 9, "p", "q")
			w.kind, w.elapse = 17, 9
			exp = append(exp, w)
			next++
		case 3:
			stack = append(stack, open{m: strace.StartCustomMethod(ctx, names[i]), index: next, start: now, id: i})
			next++
		case 4:
			stack = append(stack, open{a: strace.StartApiCall(ctx, names[i], "addr"), index: next, start: now, id: i})
			next++
		case 5:
			if len(stack) == 0 {
				continue
			}
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			w.index, w.start, w.elapse, w.text = o.index, o.start, now-o.start, names[o.id]
			w.parent = 0
			if len(stack) > 0 {
				w.parent = stack[len(stack)-1].index
			}
			w.kind = 1
			if o.m != nil {
				strace.EndMethod(ctx, o.m)
			} else {
				w.kind = 6
				// every other call fails
				if o.id%2 == 1 {
					w.err = "failed " + names[o.id]
					strace.EndApiCall(ctx, o.a, errors.New(w.err))
				} else {
					strace.EndApiCall(ctx, o.a, nil)
				}
			}
			exp = append(exp, w)
		}
	}
	strace.EndService(ctx)
	got := collect()
	indexes := []int32{0}
	for _, w := range exp {
		indexes = append(indexes, w.index)
	}
	ss := bulks(got, tctx.Txid, bulk, indexes)
	vrt.Assert(len(ss) == len(exp)+1, "not every step is delivered exactly once")
	vrt.Assert(ss[0].Type == 3 && ss[0].Index == 0, "the first step of the service is not delivered first")
	for i, w := range exp {
		s := ss[i+1]
		vrt.Assert(s.Type == w.kind, "the steps are not delivered in the order of their completion")
		vrt.Assert(s.Index == w.index, "the index of a step is not its place in the order of starts")
		vrt.Assert(s.Parent == w.parent, "the parent of a step is not the innermost open step")
		vrt.Assert(s.Start == w.start, "the start time of a step is wrong")
		switch s.Type {
		case 3:
			vrt.Assert(s.Text == w.text, "the text of a step is wrong")
		case 9:
			vrt.Assert(got.Text("hmsg", s.Hash) == w.text && s.Value == 7 && s.Time == w.elapse, "a hashed message is wrong")
		case 17:
			vrt.Assert(got.Text("hmsg", s.Hash) == w.text && s.Level == 2 && s.Elapsed == w.elapse && s.Text == "p\x03q\x03", "a parameterised message is wrong")
		case 1:
			vrt.Assert(got.Text("method", s.Hash) == w.text && s.Elapsed == w.elapse, "a method step is wrong")
		case 6:
			vrt.Assert(got.Text("apicall", s.Hash) == w.text && s.Elapsed == w.elapse && s.Addr == "addr", "an api call step is wrong")
			if w.err == "" {
				vrt.Assert(s.Error == 0, "an api call step that did not fail has an error")
			} else {
				vrt.Assert(got.Text("error", s.Error) == w.err, "an api call step does not carry its error")
			}
		}
	}
}

// H_Bulk: any number of steps, memory and bulk sizes.
func H_Bulk() {
	m := 8
	if vrt.Thorough() {
		m = 14
	}
	vrt.Bound("0..m steps, 1..m in memory, bulks of 1..m")
	n, keep, bulk := vrt.Choose("n", m+1), 1+vrt.Choose("keep", m), 1+vrt.Choose("bulk", m)
	setup(keep, bulk)
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	tctx := tctxmanager.GetTraceContext(ctx)
	for i := 0; i < n; i++ {
		strace.AddStep(ctx, netdata.NewMessageStep("m", int32(i)))
	}
	strace.EndService(ctx)
	indexes := []int32{0}
	for i := 1; i <= n; i++ {
		indexes = append(indexes, int32(i))
	}
	ss := bulks(collect(), tctx.Txid, bulk, indexes)
	vrt.Assert(len(ss) == n+1, "not every step is delivered exactly once")
	for i := 0; i < n; i++ {
		vrt.Assert(ss[i+1].Start == int32(i) && ss[i+1].Index == int32(i+1), "the steps are not delivered in order")
	}
}

// H_After: steps added after the end.
func H_After() {
	vrt.Bound("0..5 steps before and after the end, 1..4 steps in memory; the end by the application or by stuck removal, profile kept or dropped")
	before, after, keep := vrt.Choose("before", 6), vrt.Choose("after", 6), 1+vrt.Choose("keep", 4)
	c := setup(keep, 3)
	drop := vrt.Choose("drop", 2) == 1
	if drop {
		c.XlogSamplingEnabled, c.XlogSamplingOnlyProfile = true, true
		c.XlogSamplingStep1RatePct, c.XlogSamplingStep2RatePct, c.XlogSamplingStep3RatePct, c.XlogSamplingOverRatePct = 0, 0, 0, 0
	}
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	tctx := tctxmanager.GetTraceContext(ctx)
	for i := 0; i < before; i++ {
		strace.AddMessageStep(ctx, "b")
	}
	removed := vrt.Choose("stuck", 2) == 1
	// what is sent before the end
	early := 0
	for _, s := range collect().Steps(tctx.Txid) {
		if s.Type == 3 && s.Text == "b" {
			early++
		}
	}
	sent := len(net.Datagrams)
	if removed {
		vrt.Advance(1001)
		tctxmanager.GetActiveCount()
	} else {
		strace.EndService(ctx)
	}
	for i := 0; i < after; i++ {
		strace.AddMessageStep(ctx, "x")
	}
	strace.EndService(ctx)
	b, p := 0, 0
	for _, s := range collect().Steps(tctx.Txid) {
		switch {
		case s.Type == 3 && s.Text == "b":
			b++
		case s.Type == 3 && s.Text == "x":
			vrt.Fail("a step added after the end is delivered")
		case s.Type == 17:
			p++
		}
	}
	if drop && !removed {
		vrt.Assert(b <= before, "a step is delivered more than once")
		vrt.Assert(b <= early, "a step of a dropped profile is sent after the end")
		for _, p := range hcommon.Collect(net.Datagrams[sent:]).Packs {
			vrt.Assert(p.Profile == nil, "a profile pack of a dropped profile is sent after the end")
		}
	} else {
		vrt.Assert(b == before, "not every step is delivered exactly once")
	}
	vrt.Assert(p <= 1, "a step is delivered more than once")
}

// H_Concurrent: goroutines of one service add steps.
func H_Concurrent() {
	vrt.Bound("two goroutines on one service with two operations each and 1 switch, or (in thorough) one operation each and 2 switches, every statement a possible switch; 2 steps in memory; data races")
	ops, switches := 2, 1
	if vrt.Thorough() && vrt.Choose("deep", 2) == 1 {
		ops, switches = 1, 2
	}
	setup(2, 3)
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	tctx := tctxmanager.GetTraceContext(ctx)
	k := vrt.Choose("what", 4)
	work := func(name string) func() {
		return func() {
			for i := 0; i < ops; i++ {
				switch k {
				case 0:
					strace.AddMessageStep(ctx, name)
				case 1:
					strace.EndMethod(ctx, strace.StartCustomMethod(ctx, name))
				case 2:
					strace.AddPMessageStep(ctx, netdata.PMSG_INFO, name, 1)
				case 3:
					if name == "p" {
						vrt.Advance(1001)
						tctxmanager.GetActiveCount()
						return
					}
					strace.AddMessageStep(ctx, name)
				}
			}
		}
	}
	t := vrt.Spawn(work("o"))
	if k == 0 || k == 2 {
		vrt.Race()
	}
	vrt.Explore(switches)
	work("p")()
	vrt.Join(t)
	vrt.NoExplore()
	strace.EndService(ctx)
	got := collect()
	o, p, e := 0, 0, 0
	var seen []int32
	for _, s := range got.Steps(tctx.Txid) {
		for _, i := range seen {
			vrt.Assert(i != s.Index, "two steps have one index")
		}
		seen = append(seen, s.Index)
		name := s.Text
		switch s.Type {
		case 1:
			name = got.Text("method", s.Hash)
		case 17:
			name = got.Text("hmsg", s.Hash)
		}
		switch name {
		case "o":
			o++
		case "p":
			p++
		default:
			e++
		}
	}
	if k == 3 {
		vrt.Assert(o <= ops, "a step is delivered more than once")
	} else {
		vrt.Assert(o == ops && p == ops, "not every step is delivered exactly once")
	}
}
