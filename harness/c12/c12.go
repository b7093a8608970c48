// Package c12: a service is registered once and ended exactly once.
package c12

import (
	"context"
	"net/http"
	"net/url"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace strace/tctxmanager

// service is the oracle's record of a started service.
type service struct {
	ctx   context.Context
	tctx  *netio.TraceContext
	txid  int64
	start int64
	ended bool
	took  int32
	err   bool
}

var all []*service

func began(ctx context.Context) *service {
	t := tctxmanager.GetTraceContext(ctx)
	vrt.Assert(t != nil, "a started service is not in its context")
	for _, s := range all {
		vrt.Assert(s.txid != t.Txid, "two services have one txid")
	}
	s := &service{ctx: ctx, tctx: t, txid: t.Txid, start: vrt.NowNS()}
	all = append(all, s)
	return s
}

func (s *service) end() {
	if !s.ended {
		s.ended = true
		s.took = int32((vrt.NowNS() - s.start) / 1000000)
	}
}

// active checks the list of active services.
func active() {
	n := 0
	vs := tctxmanager.GetAllTctx()
	for _, s := range all {
		listed := 0
		for _, v := range vs {
			if v.(*netio.TraceContext) == s.tctx {
				listed++
			}
		}
		if s.ended {
			vrt.Assert(listed == 0, "an ended service is still listed as active")
			vrt.Assert(tctxmanager.GetTraceContextByTxid(s.txid) == nil, "an ended service is still found")
		} else {
			n++
			vrt.Assert(listed == 1, "an active service is not listed exactly once")
			vrt.Assert(tctxmanager.GetTraceContextByTxid(s.txid) == s.tctx, "an active service is not found by its txid")
		}
	}
	vrt.Assert(len(vs) == n, "a service is listed as active that was never started")
}

// settled checks what was sent and counted once all is quiet.
func settled() {
	vrt.RunFor(400)
	active()
	got := hcommon.Collect(net.Datagrams)
	n, e, t := 0, 0, 0
	for _, s := range all {
		if !s.ended {
			vrt.Assert(len(got.Xlogs(s.txid)) == 0, "a record is sent of a service that has not ended")
			continue
		}
		x := got.Xlog(s.txid)
		vrt.Assert(x.Elapsed == s.took, "the elapsed time is not that from start to the first end")
		vrt.Assert((x.Error != 0) == s.err, "the error of a service is wrong")
		n++
		t += int(s.took)
		if s.err {
			e++
		}
	}
	recs := 0
	for _, p := range got.Packs {
		if p.Xlog != nil {
			recs++
		}
	}
	vrt.Assert(recs == n, "a record is sent of a service that was never started")
	c := counter.GetServiceMeter().GetAllCounter(300)
	vrt.Assert(c.Tps*300 > float32(n)-0.5 && c.Tps*300 < float32(n)+0.5, "a service is not counted exactly once")
	if n > 0 {
		vrt.Assert(c.Elapsed == t/n, "the counted elapsed time is wrong")
		vrt.Assert(int(c.ErrorRate) == e*100/n, "the counted errors are wrong")
	}
}

func setup(lines ...string) {
	all = nil
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	hconf.Set(lines...)
}

func request() *http.Request {
	return &http.Request{Method: "GET", URL: &url.URL{Path: "/p", RawQuery: "q=1"}, Header: http.Header{"User-Agent": {"ua"}}, RemoteAddr: "1.2.3.4:80"}
}

// H_History: histories of starts and ends.
func H_History() {
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	vrt.Bound("all histories of n operations on up to n services: start (plain, nested, http, inherited), end (plain, http, repeated), error, removal of stuck services")
	setup("stuck_service_base_time_ms=1000")
	ms := []int64{1, 7, 400, 30, 2}
	for i := 0; i < n; i++ {
		vrt.Advance(ms[i])
		op := vrt.Choose("op", 9)
		var s *service
		if op >= 2 && op != 7 {
			if len(all) == 0 {
				continue
			}
			s = all[vrt.Choose("which", len(all))]
		}
		switch op {
		case 0:
			began(strace.StartService(context.Background(), "/a", "1.2.3.4:80"))
		case 1:
			req := request()
			began(strace.StartHttpService(context.Background(), req))
		case 2:
			ctx := strace.StartService(s.ctx, "/b", "")
			vrt.Assert(tctxmanager.GetTraceContext(ctx) == s.tctx, "a start inside a service does not keep the service")
			req := request()
			ctx = strace.StartHttpService(s.ctx, req)
			vrt.Assert(tctxmanager.GetTraceContext(ctx) == s.tctx, "a start inside a service does not keep the service")
		case 3:
			strace.EndService(s.ctx)
			s.end()
		case 4:
			strace.EndHttpService(s.ctx, nil, &http.Response{StatusCode: 200})
			s.end()
		case 5:
			strace.EndService(context.WithValue(s.ctx, "k", 1))
			s.end()
		case 6:
			strace.MarkAsError(s.ctx, "boom")
			if !s.ended {
				s.err = true
			}
		case 7:
			vrt.Advance(1001)
			stuck()
		case 8:
			ctx, t := strace.StartNewInheritanceService(context.Background(), s.tctx)
			vrt.Assert(tctxmanager.GetTraceContext(ctx) == t, "an inherited service is not in its context")
			began(ctx).err = s.tctx.Error != 0
		}
		active()
	}
	finish := vrt.Choose("finish", 2) == 1
	for i, s := range all {
		if i > 0 && vrt.Thorough() {
			finish = vrt.Choose("finish", 2) == 1
		}
		if finish {
			strace.EndService(s.ctx)
			s.end()
		}
	}
	settled()
}

// stuck removes the services above the limit.
func stuck() {
	tctxmanager.GetActiveCount()
	for _, s := range all {
		if !s.ended && (vrt.NowNS()-s.start)/1000000 > 1000 {
			s.end()
			s.err = true
		}
	}
}

// H_ConcurrentEnd: a service is ended by two parties at once.
func H_ConcurrentEnd() {
	vrt.Bound("two concurrent ends of a service (plain, http, stuck removal) with another service active; every statement of strace is a possible switch; 1 switch (2 in thorough)")
	setup("stuck_service_base_time_ms=1000")
	a := began(strace.StartService(context.Background(), "/a", "1.2.3.4"))
	vrt.Advance(900)
	b := began(strace.StartService(context.Background(), "/b", "1.2.3.4"))
	vrt.Advance(128 + int64(vrt.U8("ms")))
	end := func(k int) func() {
		switch k {
		case 0:
			return func() { strace.EndService(a.ctx) }
		case 1:
			return func() { strace.EndHttpService(a.ctx, nil, &http.Response{StatusCode: 200}) }
		}
		a.err = true
		return func() { tctxmanager.GetActiveCount() }
	}
	k := vrt.Choose("first", 3)
	l := vrt.Choose("second", 3)
	if k == 2 || l == 2 {
		strace.MarkAsError(a.ctx, "boom")
	}
	t := vrt.Spawn(end(k))
	if vrt.Thorough() {
		vrt.Explore(2)
	} else {
		vrt.Explore(1)
	}
	end(l)()
	vrt.Join(t)
	vrt.NoExplore()
	a.end()
	active()
	strace.EndService(b.ctx)
	b.end()
	settled()
}

// H_Counted: what is counted does not depend on what is sent.
func H_Counted() {
	vrt.Bound("a service that fails or not, ended in each way (by a web response of every 32-bit status too), up to 255 ms long, next to one that does not fail; sent, dropped by sampling, or dropped by the discard patterns though it failed")
	lines := [][]string{nil,
		{"xlog_discard_service_patterns=/p*", "xlog_discard_service_show_error=false"},
		{"xlog_discard_service_patterns=/p*"},
		{"xlog_sampling_enabled=true", "xlog_sampling_step1_rate_pct=0", "xlog_sampling_step2_rate_pct=0"},
	}[vrt.Choose("sending", 4)]
	setup(append(lines, "stuck_service_base_time_ms=1000")...)
	failed, d := vrt.Choose("failed", 2) == 1, int(vrt.U8("ms"))
	fail := func(ctx context.Context) {
		if failed {
			strace.MarkAsError(ctx, "bad")
		}
	}
	other := strace.StartService(context.Background(), "/p/other", "")
	vrt.Advance(9)
	strace.EndService(other)
	switch vrt.Choose("end", 5) {
	case 0:
		ctx := strace.StartService(context.Background(), "/p/<GET>", "")
		fail(ctx)
		vrt.Advance(int64(d))
		strace.EndService(ctx)
	case 1:
		ctx := strace.StartHttpService(context.Background(), request())
		fail(ctx)
		vrt.Advance(int64(d))
		strace.EndHttpService(ctx, request(), nil)
	case 2:
		ctx := strace.StartHttpService(context.Background(), request())
		fail(ctx)
		vrt.Advance(int64(d))
		strace.EndHttpService(ctx, request(), &http.Response{StatusCode: int(vrt.I32("status"))})
	case 3:
		strace.GoWithTrace(other, "/p/<GET>", func(ctx context.Context) {
			fail(ctx)
			vrt.Advance(int64(d))
		})
		vrt.RunFor(0)
	case 4:
		ctx := strace.StartService(context.Background(), "/p/<GET>", "")
		fail(ctx)
		d, failed = 1001, true
		vrt.Advance(int64(d))
		tctxmanager.GetActiveCount()
	}
	vrt.Assert(len(tctxmanager.GetAllTctx()) == 0, "an ended service is still listed as active")
	c := counter.GetServiceMeter().GetAllCounter(300)
	vrt.Assert(c.Tps*300 > 1.5 && c.Tps*300 < 2.5, "a service is not counted exactly once")
	vrt.Assert(vrt.Or(c.Elapsed+c.Elapsed == d+9, c.Elapsed+c.Elapsed+1 == d+9), "the counted elapsed time is wrong")
	if failed {
		vrt.Assert(c.ErrorRate == 50, "a failed service is not counted as failed")
	} else {
		vrt.Assert(c.ErrorRate == 0, "a service is counted as failed")
	}
}

// H_Go: a goroutine with its own service.
func H_Go() {
	vrt.Bound("up to 3 goroutines started in and out of services, all end orders of parent and children")
	setup()
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	var parent *service
	ctx := context.Background()
	if vrt.Choose("parent", 2) == 1 {
		ctx = strace.StartService(ctx, "/a", "1.2.3.4")
		parent = began(ctx)
	}
	ran := make([]int, n)
	kids := make([]*service, n)
	hold := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		strace.GoWithTrace(ctx, "/child", func(c context.Context) {
			ran[i]++
			if parent == nil {
				vrt.Assert(tctxmanager.GetTraceContext(c) == nil, "a goroutine outside of a service gets one")
			} else {
				vrt.Assert(tctxmanager.GetTraceContext(c) != parent.tctx, "the goroutine has the service of its parent")
				kids[i] = began(c)
			}
			hold[i] = true
			for hold[i] {
				vrt.Block()
			}
		})
	}
	vrt.RunFor(1)
	order := make([]bool, n+1)
	for k := 0; k <= n; k++ {
		active()
		vrt.Advance(10)
		j := vrt.Choose("who ends", n+1)
		vrt.Assume(!order[j])
		order[j] = true
		if j == n {
			if parent != nil {
				strace.EndService(ctx)
				parent.end()
			}
			continue
		}
		vrt.Assert(ran[j] == 1, "the function of a goroutine does not run exactly once")
		if kids[j] != nil {
			kids[j].end()
		}
		hold[j] = false
		vrt.Touch()
		vrt.RunFor(0)
	}
	settled()
}

// H_NoService: calls without a service do nothing.
func H_NoService() {
	vrt.Bound("each call, on a context without service and on no context")
	setup()
	var ctx context.Context
	if vrt.Choose("ctx", 2) == 1 {
		ctx = context.Background()
	}
	switch vrt.Choose("call", 5) {
	case 0:
		strace.EndService(ctx)
	case 1:
		strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 200})
	case 2:
		strace.MarkAsError(ctx, "boom")
	case 3:
		vrt.Assert(strace.StartMethod(ctx) == nil, "a step is started without a service")
		vrt.Assert(strace.StartCustomMethod(ctx, "m") == nil, "a step is started without a service")
		vrt.Assert(strace.StartApiCall(ctx, "m", "a") == nil, "a step is started without a service")
	case 4:
		strace.EndMethod(ctx, nil)
		strace.EndApiCall(ctx, nil, nil)
		strace.AddMessageStep(ctx, "m")
	}
	settled()
}
