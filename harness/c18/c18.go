// Package c18: active services are classified, listed and, when stuck, reported and removed.
package c18

import (
	"context"
	"net/http"
	"net/url"
	"strconv"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace strace/tctxmanager netio/tcpclient

func setup(lines ...string) {
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	hconf.Set(lines...)
}

func ms(tctx *netio.TraceContext) int64 { return (vrt.NowNS() - tctx.StartTime.UnixNano()) / 1000000 }

func start(name string) *netio.TraceContext {
	ctx := strace.StartService(context.Background(), name, "10.0.0.7:1234")
	t := tctxmanager.GetTraceContext(ctx)
	contexts[t] = ctx
	return t
}

// H_Speed: the numbers of active services by speed.
func H_Speed() {
	vrt.Bound("0..3 active services of different ages (0..300 ms, about 2^31 and 2^32 ms, every millisecond of a range of 256; 3 and 7 s apart), all 32-bit thresholds")
	setup()
	c := hconf.Set()
	c.TraceActiveserviceYellowTime = int(vrt.I32("yellow"))
	c.TraceActiveserviceRedTime = int(vrt.I32("red"))
	c.StuckServiceBaseTimeMs = 1 << 40
	n := vrt.Choose("n", 4)
	var all []*netio.TraceContext
	for i := 0; i < n; i++ {
		all = append(all, start("/s"))
		vrt.Advance([]int64{1, 3000, 4000}[i])
	}
	vrt.Advance([]int64{0, 5, 1<<31 - 8000, 1 << 32}[vrt.Choose("age", 4)] + int64(vrt.U8("ms")))
	var want [3]int64
	for _, t := range all {
		e := int(ms(t))
		fast := e <= c.TraceActiveserviceYellowTime
		slow := vrt.And(vrt.Not(fast), e <= c.TraceActiveserviceRedTime)
		want[0] += vrt.Ite(fast, 1, 0)
		want[1] += vrt.Ite(slow, 1, 0)
		want[2] += vrt.Ite(vrt.Or(fast, slow), 0, 1)
	}
	got := tctxmanager.GetActiveCount()
	for i := range want {
		vrt.Assert(got[i] == want[i], "active services are counted under the wrong speed")
	}
}

// H_Many: more active services than are looked at.
func H_Many() {
	vrt.Bound("1999, 2000 and 2001 active services")
	vrt.SetLimit(60000000)
	setup()
	n := 1999 + vrt.Choose("n", 3)
	for i := 0; i < n; i++ {
		start("/s")
	}
	vrt.Advance(5000)
	start("/new")
	got := tctxmanager.GetActiveCount()
	sum := got[0] + got[1] + got[2]
	if n < 2000 {
		vrt.Assert(got[0] == 1 && sum == int64(n+1), "active services are not all counted")
	} else {
		vrt.Assert(sum == 2000, "of more than 2000 active services not 2000 are counted")
	}
}

// H_Stuck: services active for too long.
func H_Stuck() {
	vrt.Bound("two services of which one is 128 ms, 5 s, 40 s or 2^30 ms older, the other less than 2 s old; every 31-bit limit from 2000 ms; counted twice; failed before (with any hash) or not; a stream or not; removal and alert on or off")
	setup()
	c := hconf.Set()
	c.ObjType, c.ObjHash = "golang", 77
	c.StuckServiceRemoveEnabled = vrt.Choose("remove", 2) == 1
	c.StuckServiceAlertEnabled = vrt.Choose("alert", 2) == 1
	c.StuckServiceBaseTimeMs = int(vrt.I32("limit"))
	vrt.Assume(c.StuckServiceBaseTimeMs >= 2000)
	t := start("/slow")
	failed := vrt.Choose("failed", 2) == 1
	if failed {
		t.Error = vrt.I32("error") // a hash
		vrt.Assume(t.Error != 0)
	}
	was := t.Error
	t.IsStream = vrt.Choose("stream", 2) == 1
	d := []int64{128, 5000, 40000, 1 << 30}[vrt.Choose("age", 4)]
	vrt.Advance(d)
	u := start("/young")
	vrt.Advance(50)
	vrt.RunFor(400)
	net.Datagrams = nil
	d = ms(t)
	stuck := int(d) > c.StuckServiceBaseTimeMs
	got := tctxmanager.GetActiveCount()
	vrt.Assert(got[0]+got[1]+got[2] == 2, "active services are not all counted")
	vrt.RunFor(400)
	col := hcommon.Collect(net.Datagrams)
	alerts := func(col *hcommon.Collected, age int64) int {
		k := 0
		for _, p := range col.Packs {
			if p.Tag == 70 {
				k++
				vrt.Assert(p.Title == "STUCK_SERVICE" && p.ObjType == "golang" && p.Hash == 77, "the alert of a stuck service does not say so")
				if c.StuckServiceAlertEnabled {
					vrt.Assert(p.Level == 2, "the alert has the wrong level")
				} else {
					vrt.Assert(p.Level == 1, "the alert has the wrong level")
				}
				vrt.Assert(p.Message == "service: /slow, elapsed: "+strconv.Itoa(int(age))+", goId: "+strconv.Itoa(t.Goid), "the alert of a stuck service has the wrong text")
			}
		}
		return k
	}
	if !stuck {
		vrt.Assert(alerts(col, d) == 0, "a service within the limit is reported as stuck")
		vrt.Assert(len(col.Xlogs(t.Txid)) == 0 && tctxmanager.GetTraceContextByTxid(t.Txid) == t, "a service within the limit is ended")
		return
	}
	vrt.Assert(alerts(col, d) == 1, "a stuck service is not reported by one alert")
	vrt.Assert(len(col.Xlogs(u.Txid)) == 0 && tctxmanager.GetTraceContextByTxid(u.Txid) == u, "a service within the limit is ended")
	if !c.StuckServiceRemoveEnabled {
		vrt.Assert(len(col.Xlogs(t.Txid)) == 0 && tctxmanager.GetTraceContextByTxid(t.Txid) == t, "a stuck service is ended though removal is off")
		net.Datagrams = nil
		got = tctxmanager.GetActiveCount()
		vrt.Assert(got[0]+got[1]+got[2] == 2, "active services are not all counted")
		vrt.RunFor(400)
		vrt.Assert(alerts(hcommon.Collect(net.Datagrams), d+400) == 1, "a service that is still stuck is not reported again")
		return
	}
	x := col.Xlog(t.Txid)
	vrt.Assert(x.Elapsed == int32(d), "the record of a removed service has the wrong elapsed time")
	if failed {
		vrt.Assert(x.Error == was, "removal changes the error of a failed service")
	} else {
		vrt.Assert(col.Text("error", x.Error) == "This stuck service currently may running, not finished!", "a removed service is not reported as failed")
	}
	steps := col.Steps(t.Txid)
	vrt.Assert(len(steps) > 0, "a removed service has no step that says so")
	last := steps[len(steps)-1]
	vrt.Assert(last.Level == 3, "a removed service has no error message step")
	vrt.Assert(last.Start == int32(d), "the message step of a removed service is not of the time of removal")
	vrt.Assert(col.Text("hmsg", last.Hash) == "Service currently may running, not finished!", "the message of a removed service is wrong")
	net.Datagrams = nil
	got = tctxmanager.GetActiveCount()
	vrt.Assert(got[0]+got[1]+got[2] == 1, "a removed service is still counted as active")
	vrt.RunFor(400)
	vrt.Assert(alerts(hcommon.Collect(net.Datagrams), d) == 0, "a removed service is reported again")
}

// H_Alert: the text of the alert.
func H_Alert() {
	vrt.Bound("ages 1001, 65536 and 3000000000 ms; of a service, of one of GoWithTrace that goes on after its parent, of one that inherits")
	setup("stuck_service_base_time_ms=1000", "stuck_service_remove_enabled=false")
	goid, name := vrt.CurID(), "/path/<GET>"
	switch vrt.Choose("kind", 3) {
	case 0:
		start(name)
	case 1:
		p := start("/parent")
		strace.GoWithTrace(ctxOf(p), name, func(ctx context.Context) {
			goid = vrt.CurID()
			vrt.Sleep(1 << 62)
		})
		vrt.RunFor(0)
		vrt.Assert(goid != vrt.CurID(), "the function of GoWithTrace does not run in a goroutine of its own")
		strace.EndService(ctxOf(p))
	case 2:
		p := start(name)
		t := vrt.Spawn(func() {
			goid = vrt.CurID()
			strace.StartNewInheritanceService(context.Background(), p)
		})
		vrt.Join(t)
		strace.EndService(ctxOf(p))
	}
	age := []int64{1001, 65536, 3000000000}[vrt.Choose("age", 3)]
	vrt.Advance(age)
	tctxmanager.GetActiveCount()
	vrt.RunFor(400)
	k := 0
	for _, p := range hcommon.Collect(net.Datagrams).Packs {
		if p.Tag == 70 {
			k++
			vrt.Assert(p.Message == "service: /path/<GET>, elapsed: "+strconv.Itoa(int(age))+", goId: "+strconv.Itoa(goid), "the alert does not name service, elapsed time and goroutine")
		}
	}
	vrt.Assert(k == 1, "a stuck service is not reported by one alert")
}

// H_List: what the collector sees of active services.
func H_List() {
	vrt.Bound("all histories of up to 3 services (plain or of GoWithTrace inside the first active one) started and ended")
	setup()
	s := hcommon.NewServer()
	s.Hello()
	type active struct {
		t     *netio.TraceContext
		name  string
		begun int64
		goid  int
		hold  *bool
	}
	var all []active
	ids := map[int64]bool{}
	for i := 0; i < 3; i++ {
		name := "/s" + strconv.Itoa(i)
		switch vrt.Choose("op", 4) {
		case 0:
			t := start(name)
			all = append(all, active{t, name, vrt.NowNS(), vrt.CurID(), nil})
			ids[t.Txid] = true
		case 3:
			if len(all) > 0 {
				hold := true
				a := active{nil, name, vrt.NowNS(), 0, &hold}
				strace.GoWithTrace(ctxOf(all[0].t), name, func(ctx context.Context) {
					a.t, a.goid = tctxmanager.GetTraceContext(ctx), vrt.CurID()
					contexts[a.t] = ctx
					for hold {
						vrt.Block()
					}
				})
				vrt.RunFor(0)
				vrt.Assert(a.goid != 0 && a.goid != vrt.CurID(), "the function of GoWithTrace does not run in a goroutine of its own")
				all = append(all, a)
				ids[a.t.Txid] = true
			}
		case 1:
			if len(all) > 0 {
				w := vrt.Choose("which", len(all))
				if all[w].hold != nil {
					*all[w].hold = false
					vrt.Touch()
					vrt.RunFor(0)
				} else {
					strace.EndService(ctxOf(all[w].t))
				}
				all = append(append([]active{}, all[:w]...), all[w+1:]...)
			}
		}
		vrt.Advance(100)
	}
	before := vrt.NowNS()
	v := s.Call("OBJECT_ACTIVE_SERVICE_LIST")
	now := vrt.NowNS()
	vrt.Assert(v != nil && v.Get("complete") != nil && v.Get("complete").B, "the list of active services is not complete")
	col := map[string][]hcommon.Val{}
	for _, k := range []string{"id", "elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"} {
		l := v.Get(k)
		vrt.Assert(l != nil && l.Tag == 70, "the list of active services lacks a column")
		vrt.Assert(len(l.List) == len(all), "the list of active services does not have one row for each")
		col[k] = l.List
	}
	seen := map[string]bool{}
	for i := range all {
		id := col["txid"][i].S
		vrt.Assert(!seen[id], "an active service is listed twice")
		seen[id] = true
		found := false
		for _, a := range all {
			if text32(a.t.Txid) == id {
				found = true
				vrt.Assert(col["service"][i].S == a.name, "a row has the name of another service")
				vrt.Assert(col["ip"][i].S == "10.0.0.7", "a row has the wrong address")
				e := col["elapsed"][i].N
				vrt.Assert(e >= (before-a.begun)/1000000 && e <= (now-a.begun)/1000000, "a row has the wrong elapsed time")
				vrt.Assert(col["id"][i].N == int64(a.goid) && col["name"][i].S == "[goroutine] "+strconv.Itoa(a.goid), "a row has the wrong goroutine")
			}
		}
		vrt.Assert(found, "a service that is not active is listed")
	}
	// details
	for id := range ids {
		p := hcommon.Param{Key: "txid", Num: id}
		before := vrt.NowNS()
		v := s.Call("OBJECT_THREAD_DETAIL", p)
		vrt.Assert(v != nil, "no detail is answered")
		var is *active
		for i := range all {
			if all[i].t.Txid == id {
				is = &all[i]
			}
		}
		if is == nil {
			vrt.Assert(v.Get("State").S == "end" && v.Get("Service Name") == nil, "an ended service is detailed as active")
		} else {
			vrt.Assert(v.Get("Service Txid").S == text32(id), "the detail has the wrong transaction id")
			vrt.Assert(v.Get("Service Name").S == is.name, "the detail has the wrong service")
			vrt.Assert(v.Get("State").S != "end", "an active service is detailed as ended")
			vrt.Assert(v.Get("Thread Name").S == "[goroutine] "+strconv.Itoa(is.goid), "the detail has the wrong goroutine")
			e := v.Get("Service Elapsed").N
			vrt.Assert(e >= (before-is.begun)/1000000 && e <= (vrt.NowNS()-is.begun)/1000000, "the detail has the wrong elapsed time")
		}
	}
}

// H_Watch: the collector looks while services start, run and end.
func H_Watch() {
	vrt.Bound("a service (plain or http) starts, runs a method, is marked and ends while the collector asks for the list or the detail, or the active services are counted; every statement of strace and the TCP handlers is a possible switch; 1 switch (2 in thorough); data races")
	setup()
	common.Goid()
	old := start("/old")
	t := vrt.Spawn(func() {
		var ctx context.Context
		if vrt.Choose("http", 2) == 1 {
			ctx = strace.StartHttpService(context.Background(), &http.Request{Method: "GET", URL: &url.URL{Path: "/new"}, Header: http.Header{}, RemoteAddr: "10.0.0.7:1"})
		} else {
			ctx = strace.StartService(context.Background(), "/new<GET>", "10.0.0.7:1")
		}
		m := strace.StartMethod(ctx)
		strace.EndMethod(ctx, m)
		strace.EndService(ctx)
		m = strace.StartMethod(contexts[old])
		strace.EndMethod(contexts[old], m)
	})
	vrt.Race()
	if vrt.Thorough() {
		vrt.Explore(2)
	} else {
		vrt.Explore(1)
	}
	switch vrt.Choose("ask", 3) {
	case 0:
		v := tcpclient.GetActiveList()
		l := v.Table["service"].(*netdata.ListValue)
		for i := 0; i < l.Size(); i++ {
			n := l.GetString(i)
			vrt.Assert(n == "/new<GET>" || n == "/old", "a half started service is listed")
		}
	case 1:
		p := netdata.NewMapPack()
		p.Put("txid", old.Txid)
		v := tcpclient.GetGoroutineDetail(p)
		vrt.Assert(v.Table["Service Name"].(*netdata.TextValue).Value == "/old", "the detail has the wrong service")
	case 2:
		c := tctxmanager.GetActiveCount()
		vrt.Assert(c[0] == 1 || c[0] == 2, "active services are miscounted")
	}
	vrt.Join(t)
	vrt.NoExplore()
}

var contexts = map[*netio.TraceContext]context.Context{}

func ctxOf(t *netio.TraceContext) context.Context { return contexts[t] }

// text32 is the collector's text form of an id.
func text32(n int64) string {
	if n >= 0 && n < 10 {
		return strconv.Itoa(int(n))
	}
	s, u := "x", uint64(n)
	if n < 0 {
		s, u = "z", -u
	}
	return s + strconv.FormatUint(u, 32)
}
