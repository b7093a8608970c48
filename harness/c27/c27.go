// Package c27: services that run at the same time.
package c27

import (
	"context"
	"errors"
	"net/http"
	"net/url"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace strace/tctxmanager netio netio/udpsender common/util/keygen counter common/structure/lra common/structure/cachemap

// service is a service as a goroutine runs it and as it is to be recorded.
type service struct {
	name, message, failure, call string
	ip                           string
	http, child, method          bool
	status                       int
	tctx                         *netio.TraceContext
	kid                          *netio.TraceContext
}

func (s *service) run() {
	ctx := context.Background()
	req := &http.Request{Method: "GET", URL: &url.URL{Path: s.name}, Header: http.Header{"User-Agent": {"ua" + s.name}}, RemoteAddr: s.ip + ":80"}
	if s.http {
		ctx = strace.StartHttpService(ctx, req)
	} else {
		ctx = strace.StartService(ctx, s.name, s.ip)
	}
	s.tctx = tctxmanager.GetTraceContext(ctx)
	if s.message != "" {
		strace.AddMessageStep(ctx, s.message)
	}
	if s.child {
		strace.GoWithTrace(ctx, s.name+"/go", func(c context.Context) {
			s.kid = tctxmanager.GetTraceContext(c)
			strace.AddMessageStep(c, s.name)
		})
	}
	if s.method {
		strace.EndMethod(ctx, strace.StartCustomMethod(ctx, "m"+s.name))
	}
	if s.call != "" {
		strace.EndApiCall(ctx, strace.StartApiCall(ctx, s.call, s.ip), errors.New(s.failure))
	}
	if s.failure != "" {
		strace.MarkAsError(ctx, s.failure)
	}
	if s.http {
		strace.EndHttpService(ctx, req, &http.Response{StatusCode: s.status})
	} else {
		strace.EndService(ctx)
	}
}

// check compares the record with the service, and returns how many services it stands for.
func (s *service) check(got *hcommon.Collected, o *service, objHash int32) int {
	x := got.Xlog(s.tctx.Txid)
	want := s.name
	if s.http {
		want += "<GET>"
		vrt.Assert(got.Text("ua", x.UserAgent) == "ua"+s.name, "a service is recorded with another's user agent")
		vrt.Assert(x.Status == int32(s.status), "a service is recorded with another's status")
	} else {
		vrt.Assert(x.UserAgent == 0 && x.Status == 0, "a service is recorded with another's request")
	}
	vrt.Assert(got.Text("service", x.Service) == want, "a service is recorded with another's name")
	vrt.Assert(got.Text("error", x.Error) == s.failure, "a service is recorded with another's error")
	vrt.Assert(x.Ipaddr == string([]byte{s.ip[0] - '0', 0, 0, 1}), "a service is recorded with another's address")
	vrt.Assert(o == nil || o.tctx == nil || o.tctx.Txid != s.tctx.Txid, "two services have the same id")
	seen := []string{"goroutine"}
	if s.message != "" {
		seen = append(seen, s.message)
	}
	if s.child {
		seen = append(seen, s.name+"/go")
	}
	if s.method {
		seen = append(seen, "m"+s.name)
	}
	if s.call != "" {
		seen = append(seen, s.call)
	}
	if s.failure != "" {
		seen = append(seen, s.failure)
	}
	steps := got.Steps(s.tctx.Txid)
	for i := range steps { // the packs may overtake each other
		for j := i; j > 0 && steps[j].Index < steps[j-1].Index; j-- {
			steps[j], steps[j-1] = steps[j-1], steps[j]
		}
	}
	vrt.Assert(len(steps) == len(seen) && x.ProfileCount == int32(len(seen)), "a service has lost steps or got steps of another")
	for i, t := range steps {
		text := t.Text
		switch {
		case t.Type == 1:
			text = got.Text("method", t.Hash)
		case t.Type == 6 || t.Type == 14:
			text = got.Text("apicall", t.Hash)
		case t.Type == 17:
			text = got.Text("hmsg", t.Hash)
		}
		vrt.Assert(t.Index == int32(i), "the steps of a service are numbered with another's")
		if i > 0 {
			vrt.Assert(hcommon.Same([]byte(text), []byte(seen[i])), "a service has steps of another")
		}
	}
	calls := int32(0)
	if s.call != "" {
		calls = 1
	}
	vrt.Assert(x.ApicallCount == calls, "a service is recorded with another's calls")
	if !s.child {
		return 1
	}
	k := got.Xlog(s.kid.Txid)
	vrt.Assert(k.Caller == s.tctx.Txid && k.Gxid == x.Gxid && got.Text("service", k.Service) == s.name+"/go", "a goroutine's service is linked with another")
	vrt.Assert(len(got.Steps(s.kid.Txid)) == 2, "a goroutine's service has lost steps or got steps of another")
	return 2
}

// H_Services: two services at the same time.
func H_Services() {
	vrt.Bound("two goroutines with a service each (plain or http, with message, method, failed api call and goroutine steps, names that are equal or not, every http status), or one with the collector's reset of texts or the counting of active services beside it; steps in memory 2; switches between the two at every statement of the packages strace, tctxmanager, netio, udpsender, keygen, counter and lra, 1 switch (2 for short services in thorough); data races")
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	c := hconf.Set("profile_step_max_keep_in_memory_count=2")
	vrt.SetLimit(20000000)
	d := vrt.String("d", 1)
	switches, kind, with := 1, 4, 0
	if vrt.Thorough() {
		if vrt.Choose("deep", 2) == 1 {
			switches = 2
		} else {
			kind = vrt.Choose("a", 4)
		}
		with = vrt.Choose("b", 5)
	} else {
		pairs := [][2]int{{0, 1}, {0, 2}, {1, 1}, {1, 3}, {2, 0}, {2, 2}, {3, 2}, {3, 4}}
		i := vrt.Choose("pair", len(pairs))
		kind, with = pairs[i][0], pairs[i][1]
	}
	a := &service{name: "/a", ip: "1.0.0.1", status: vrt.Range("status", 200, 599)}
	switch kind {
	case 0:
		a.message, a.failure, a.http = "a message"+d, "a failure", true
	case 1:
		a.call, a.failure = "/a/call", "a failure"
	case 2:
		a.child = true
	case 3:
		a.method, a.message = true, "a message"+d
	}
	var b *service
	beside := func() {}
	switch with {
	case 0:
		b = &service{name: "/b", message: "b message", ip: "2.0.0.1"}
	case 1:
		b = &service{name: "/b", http: true, failure: "b failure", call: "/b/call", ip: "2.0.0.1", status: 500}
	case 2:
		b = &service{name: a.name, failure: a.failure, message: a.message, http: a.http, method: a.method, ip: "2.0.0.1", status: 599 - a.status/2}
	case 3:
		beside = func() { tcpclient.ResetCache(nil) }
	case 4:
		beside = func() { tctxmanager.GetActiveCount() }
	}
	if b != nil {
		beside = b.run
	}
	t := vrt.Spawn(beside)
	vrt.Race()
	vrt.Among = []int{vrt.CurID(), t}
	vrt.Explore(switches)
	a.run()
	vrt.Join(t)
	vrt.NoExplore()
	vrt.RunFor(500)
	got := hcommon.Collect(net.Datagrams)
	n := a.check(got, b, c.ObjHash)
	if b != nil {
		n += b.check(got, a, c.ObjHash)
	}
	xlogs := 0
	for _, p := range got.Packs {
		if p.Xlog != nil {
			xlogs++
		}
	}
	vrt.Assert(xlogs == n, "a record is of no service")
	vrt.Assert(len(tctxmanager.GetAllTctx()) == 0, "an ended service is still active")
	m := counter.GetServiceMeter().GetAllCounter(30)
	vrt.Assert(m.Tps == float32(n)/30, "the services are not counted once each")
}
