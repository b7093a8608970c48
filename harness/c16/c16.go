// Package c16: the agent leaves the host alone.
package c16

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strconv"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var errFault = errors.New("fault")

type key string

// safe runs a call into the agent, which must come back.
func safe(what string, f func()) {
	r := vrt.Catch(f)
	vrt.Assert(r == nil, "a panic reaches the host out of "+what)
}

// usable checks a context handed out for the one given.
func usable(given, got context.Context) {
	vrt.Assert(got != nil, "the host gets no context")
	r := vrt.Catch(func() { got.Value(key("nothing")) })
	vrt.Assert(r == nil, "the host gets a context it cannot use")
	if given != nil {
		vrt.Assert(got.Value(key("k")) == given.Value(key("k")), "the host loses the values of its context")
	}
}

// works checks that a service is traced as ever.
func works() {
	var ctx context.Context
	safe("a service", func() {
		ctx = strace.StartService(context.Background(), "/works", "1.2.3.4:5")
	})
	usable(nil, ctx)
	t := tctxmanager.GetTraceContext(ctx)
	vrt.Assert(t != nil, "a service is not traced")
	safe("a service", func() {
		strace.AddMessageStep(ctx, "one")
		strace.EndMethod(ctx, strace.StartCustomMethod(ctx, "two"))
		strace.EndService(ctx)
	})
	vrt.RunFor(300)
	got := hcommon.Collect(net.Datagrams)
	x := got.Xlog(t.Txid)
	vrt.Assert(got.Text("service", x.Service) == "/works" && x.Error == 0, "a service is not recorded as it was")
	vrt.Assert(len(got.Steps(t.Txid)) == 3 && x.ProfileCount == 3, "the steps of a service are not recorded")
}

func setup(lines ...string) {
	common.RegisterSendPanicF(netio.SendPanic)
	strace.StartTracingMode()
	hconf.Set(lines...)
}

func request() *http.Request {
	return &http.Request{Method: "GET", URL: &url.URL{Path: "/p", RawQuery: "q=1"}, Header: http.Header{"User-Agent": {"ua"}}, RemoteAddr: "1.2.3.4:80"}
}

// aRequest is one of the requests a host may give.
func aRequest(text string) *http.Request {
	switch vrt.Choose("request", 5) {
	case 0:
		return nil
	case 1:
		return &http.Request{}
	case 2:
		return &http.Request{Method: text, Header: http.Header{}, RemoteAddr: text}
	case 3:
		return &http.Request{Method: "GET", URL: &url.URL{Path: text, RawQuery: text}, RemoteAddr: text}
	}
	r := request()
	r.Header = http.Header{"User-Agent": nil, "Referer": {text}, "": {text}}
	return r
}

// aContext is one of the contexts a host may give.
func aContext() context.Context {
	mine := context.WithValue(context.Background(), key("k"), "v")
	switch vrt.Choose("context", 4) {
	case 0:
		return nil
	case 1:
		return mine
	case 2:
		return strace.StartService(mine, "/s", "1.2.3.4")
	}
	ctx := strace.StartService(mine, "/s", "1.2.3.4")
	strace.EndService(ctx)
	return ctx
}

// H_Args: whatever the arguments of a call.
func H_Args() {
	vrt.Bound("each call of package strace; contexts: none, plain, of a service, of an ended one; requests: none, empty, without URL or headers; steps: none, typed nil, ended, of another service; texts of up to 1 (thorough: 2) arbitrary bytes; one option at a time")
	setup("profile_http_header_enabled=true", "profile_http_querystring_enabled=true", "trace_http_client_ip_header_key=Referer")
	ctx := aContext()
	call := vrt.Choose("call", 24)
	text := ""
	if call < 19 {
		n := 2
		if vrt.Thorough() {
			n = 3
		}
		text = vrt.String("text", vrt.Choose("len", n))
	}
	var got context.Context
	gives := false
	ran := 0
	safe("a call", func() {
		switch call {
		case 0:
			got, gives = strace.StartService(ctx, text, text), true
		case 1:
			got, gives = strace.StartHttpService(ctx, aRequest(text)), true
		case 2:
			got, _ = strace.StartNewInheritanceService(ctx, nil)
			gives = true
		case 3:
			parent := &netio.TraceContext{ServiceName: text, RemoteIp: text}
			got, _ = strace.StartNewInheritanceService(ctx, parent)
			gives = true
		case 4:
			strace.GoWithTrace(ctx, text, func(c context.Context) {
				ran++
				if ctx != nil {
					usable(ctx, c)
				}
			})
		case 5:
			strace.EndHttpService(ctx, aRequest(text), []*http.Response{nil, {}}[vrt.Choose("response", 2)])
		case 6:
			strace.MarkAsError(ctx, text)
		case 7:
			strace.MarkAsErrorForcibly(ctx, text)
		case 8:
			strace.SetServiceNameForcibly(ctx, text)
		case 9:
			strace.AddMessageStep(ctx, text)
		case 10:
			strace.AddHashedMessageStep(ctx, text, -1, -1)
		case 11:
			strace.AddPMessageStep(ctx, netdata.PMessageLevel(99), text, -1, nil...)
			strace.AddPMessageStep(ctx, netdata.PMSG_INFO, text, 1, text, "")
		case 12:
			strace.EndMethod(ctx, strace.StartMethodWithParam(ctx, nil, text, (*int)(nil), []string(nil)))
		case 13:
			strace.EndMethod(ctx, strace.StartCustomMethod(ctx, text))
		case 14:
			strace.EndApiCall(ctx, strace.StartApiCall(ctx, text, text), nil)
		case 15:
			strace.EndApiCall(ctx, strace.StartApiCall(ctx, text, text), errors.New(text))
		case 16:
			strace.StartApiCallWithPropagation(ctx, aRequest(text), text, text)
		case 17:
			strace.SetAsStream(ctx)
			strace.IsStream(ctx)
			strace.EndService(ctx)
		case 18:
			strace.GoWithTrace(ctx, text, func(c context.Context) {
				ran++
				strace.EndService(c)
			})
		case 19:
			steps := []netdata.Step{nil, (*netdata.MessageStep)(nil), (*netdata.MethodStep)(nil), &netdata.MessageStep{}}
			strace.AddStep(ctx, steps[vrt.Choose("step", 4)])
		case 20:
			strace.EndMethod(ctx, nil)
			strace.EndApiCall(ctx, nil, errFault)
		case 21:
			other := strace.StartService(context.Background(), "/o", "")
			strace.EndMethod(ctx, strace.StartMethod(other))
			strace.EndApiCall(ctx, strace.StartApiCall(other, "", ""), errFault)
		case 22:
			m := strace.StartMethod(ctx)
			strace.EndMethod(ctx, m)
			strace.EndMethod(ctx, m)
			strace.EndService(ctx)
			strace.EndMethod(ctx, m)
		case 23:
			strace.EndMethod(ctx, netdata.NewMethodStep())
			strace.EndApiCall(ctx, netdata.NewApiCallStep(), errFault)
		}
	})
	if gives {
		usable(ctx, got)
		safe("the end of a service", func() { strace.EndService(got) })
	}
	vrt.RunFor(200)
	if call == 4 || call == 18 {
		vrt.Assert(ran == 1, "the host's function does not run once")
	}
	if ctx != nil {
		safe("the end of a service", func() { strace.EndService(ctx) })
	}
	works()
}

// numbers are the keys whose value is a number.
var numbers = []string{
	"udp_max_bytes", "profile_step_max_keep_in_memory_count", "profile_step_max_count", "send_queue_size",
	"net_collector_udp_port", "net_collector_tcp_port", "net_collector_tcp_so_timeout_ms", "net_collector_tcp_connection_timeout_ms",
	"stuck_service_base_time_ms", "trace_activeservice_yellow_time", "trace_activeservice_red_time",
	"xlog_sampling_step1_ms", "xlog_sampling_step1_rate_pct", "xlog_sampling_step2_ms", "xlog_sampling_step2_rate_pct",
	"xlog_sampling_step3_ms", "xlog_sampling_step3_rate_pct", "xlog_sampling_over_rate_pct",
}

// H_Numbers: whatever number a key has.
func H_Numbers() {
	vrt.Bound("each key that takes a number (of the three like patterned samplings the general one), any number of 0 to 9 (thorough and other than sizes: -9 to 99) and 12 larger ones (memory sizes up to 100000), with a service of 5 steps and 6 seconds of the agent's tasks")
	vrt.SetLimit(20000000)
	k := vrt.Choose("key", len(numbers))
	name := numbers[k]
	v := ""
	if vrt.Choose("long", 2) == 0 {
		n := 1
		if k >= 4 || vrt.Thorough() {
			n = 2
		}
		v = vrt.StringOver("v", 1+vrt.Choose("len", n), "-0123456789")
	} else {
		long := []string{"100000", "100", "-100", "65535", "65536", "-2147483648", "-2147483649", "-9223372036854775808", "2147483647", "2147483648", "4294967296", "9223372036854775807"}
		n := len(long)
		if k == 1 || k == 3 {
			n = 8
		}
		v = long[vrt.Choose("text", n)]
	}
	if k >= 11 {
		setup("xlog_sampling_enabled=true", name+"="+v)
	} else {
		setup(name + "=" + v)
	}
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	agenttask.SendObjPack()
	agenttask.Start()
	countertask.Start()
	counter.Start()
	var ctx context.Context
	vrt.RunFor(1100)
	ran := 0
	safe("a service", func() { ctx = strace.StartService(context.Background(), "/s", "1.2.3.4:5") })
	usable(nil, ctx)
	safe("a service", func() {
		strace.AddMessageStep(ctx, "one")
		strace.EndMethod(ctx, strace.StartCustomMethod(ctx, "two"))
		strace.EndApiCall(ctx, strace.StartApiCall(ctx, "three", ""), errFault)
		strace.GoWithTrace(ctx, "/g", func(context.Context) { ran++ })
	})
	vrt.RunFor(5000)
	vrt.Assert(ran == 1, "the host's function does not run once")
	safe("a service", func() { strace.EndService(ctx) })
	vrt.RunFor(4500)
	if k == 1 || k == 2 {
		got := hcommon.Collect(net.Datagrams)
		n := 0
		for _, p := range got.Packs {
			if p.Xlog != nil && p.Xlog.ProfileCount == 5 {
				n++
			}
		}
		vrt.Assert(n == 1, "the service is not recorded")
	}
}

// H_Faults: whatever fails around the agent.
func H_Faults() {
	vrt.Bound("each subset of: no folder can be made, no file can be opened, read or asked for, no socket can be opened at first or ever, no datagram can be sent; all flags on or off; 12 seconds of the agent's tasks with a service")
	vrt.SetLimit(20000000)
	os.Setenv("SCOUTER_AGENT_HOME", []string{"", "/denied", "/plain"}[vrt.Choose("home", 3)])
	os.Put("/plain", []byte("a file"))
	mkdir, open, stat := vrt.BoolV("mkdir"), vrt.BoolV("open"), vrt.BoolV("stat")
	os.Fault = func(op, p string) error {
		switch op {
		case "mkdir":
			if mkdir {
				return errFault
			}
		case "open", "openw", "read":
			if open && p != hconf.Path {
				return errFault
			}
		case "stat":
			if stat && p != hconf.Path {
				return errFault
			}
		}
		return nil
	}
	dials := []int{0, 1, 1000}[vrt.Choose("dials", 3)]
	never := dials == 1000
	net.UDPDialFault = func(string) error {
		if dials--; dials >= 0 {
			return errFault
		}
		return nil
	}
	write := vrt.BoolV("write")
	net.UDPWriteFault = func([]byte) error {
		if write {
			return errFault
		}
		return nil
	}
	safe("the log", logger.Init)
	flag := "=false"
	if vrt.Choose("flags", 2) == 1 {
		flag = "=true"
	}
	setup("trace_obj_send"+flag, "profile_http_header_enabled"+flag, "stuck_service_alert_enabled"+flag, "xlog_sampling_only_profile"+flag)
	safe("the start", func() {
		agenttask.SendObjPack()
		agenttask.Start()
		countertask.Start()
	})
	var ctx context.Context
	safe("a service", func() {
		ctx = strace.StartHttpService(context.Background(), request())
		usable(nil, ctx)
		strace.AddMessageStep(ctx, "one")
	})
	vrt.RunFor(12000)
	safe("a service", func() { strace.EndService(ctx) })
	if !never && !write {
		works()
	}
}

// evil is a context, error and step whose methods panic.
type evil struct{ context.Context }

func (evil) Value(interface{}) interface{} { panic("evil value") }
func (evil) Error() string                 { panic("evil error") }

type evilStep struct {
	*netdata.MessageStep
	inWrite bool
}

func (s *evilStep) SetIndex(i int32) {
	if !s.inWrite {
		panic("evil step")
	}
	s.MessageStep.SetIndex(i)
}
func (s *evilStep) Write(*netdata.DataOutputX) error { panic("evil step") }

// H_Panics: a panic inside the agent.
func H_Panics() {
	vrt.Bound("a panic in each call of package strace, out of a context, an error or a step given to it; the panic is reported, cannot be reported, or nobody is registered for the report")
	setup()
	ctx := context.WithValue(context.Background(), key("k"), "v")
	var bad context.Context = evil{ctx}
	report := vrt.Choose("report", 3)
	switch report {
	case 1:
		common.RegisterSendPanicF(func(string) { panic("evil report") })
	case 2:
		common.RegisterSendPanicF(nil)
	}
	text := vrt.String("text", 1)
	ran := 0
	runs := false
	kind := vrt.Choose("call", 22)
	if kind >= 18 {
		ctx = strace.StartService(ctx, "/s", text)
	}
	safe("a call", func() {
		switch kind {
		case 0:
			got := strace.StartService(bad, "/s", text)
			vrt.Assert(got == bad, "the host does not get its context back")
		case 1:
			got := strace.StartHttpService(bad, request())
			vrt.Assert(got == bad, "the host does not get its context back")
		case 2:
			got, _ := strace.StartNewInheritanceService(bad, &netio.TraceContext{})
			vrt.Assert(got != nil, "the host gets no context")
		case 3:
			runs = true
			strace.GoWithTrace(bad, "/g", func(context.Context) { ran++ })
		case 4:
			strace.EndService(bad)
		case 5:
			strace.EndHttpService(bad, request(), &http.Response{})
		case 6:
			strace.MarkAsError(bad, text)
		case 7:
			strace.MarkAsErrorForcibly(bad, text)
		case 8:
			strace.SetServiceNameForcibly(bad, text)
		case 9:
			strace.AddMessageStep(bad, text)
			strace.AddHashedMessageStep(bad, text, 1, 1)
			strace.AddPMessageStep(bad, netdata.PMSG_INFO, text, 1)
		case 10:
			strace.AddStep(bad, netdata.NewMessageStep(text, 1))
		case 11:
			vrt.Assert(strace.StartMethod(bad) == nil, "a step is started without a service")
		case 12:
			vrt.Assert(strace.StartMethodWithParam(bad, 1) == nil, "a step is started without a service")
		case 13:
			vrt.Assert(strace.StartCustomMethod(bad, text) == nil, "a step is started without a service")
			vrt.Assert(strace.StartCustomMethodWithParam(bad, text, 1) == nil, "a step is started without a service")
		case 14:
			vrt.Assert(strace.StartApiCall(bad, text, text) == nil, "a step is started without a service")
			vrt.Assert(strace.StartApiCallWithPropagation(bad, request(), text, text) == nil, "a step is started without a service")
		case 15:
			strace.EndMethod(bad, netdata.NewMethodStep())
		case 16:
			strace.EndApiCall(bad, netdata.NewApiCallStep(), nil)
		case 17:
			vrt.Assert(!strace.IsStream(bad) && !strace.SetAsStream(bad), "a stream without a service")
		case 18:
			strace.EndApiCall(ctx, strace.StartApiCall(ctx, "", ""), evil{})
		case 19:
			strace.AddStep(ctx, &evilStep{MessageStep: netdata.NewMessageStep(text, 1)})
		case 20:
			strace.AddStep(ctx, &evilStep{MessageStep: netdata.NewMessageStep(text, 1), inWrite: true})
			strace.EndService(ctx)
		case 21:
			runs = true
			strace.AddStep(ctx, &evilStep{MessageStep: netdata.NewMessageStep(text, 1), inWrite: true})
			strace.GoWithTrace(ctx, "/g", func(c context.Context) {
				ran++
				strace.AddStep(c, &evilStep{MessageStep: netdata.NewMessageStep(text, 1), inWrite: true})
			})
			strace.EndHttpService(ctx, nil, nil)
		}
	})
	vrt.RunFor(300)
	vrt.Assert(!runs || ran == 1, "the host's function does not run once")
	alerts := 0
	for _, p := range hcommon.Collect(net.Datagrams).Packs {
		if p.Tag == 70 && p.Title == "Panic" && p.Level == 3 {
			alerts++
		}
	}
	vrt.Assert((alerts > 0) == (report == 0) || kind == 2, "a panic inside the agent is not reported")
	works()
}

// H_Tasks: a panic in the agent's tasks.
func H_Tasks() {
	vrt.Bound("the removal of a stuck service panics the first, the second or each time, while the counters are sent for 14 seconds")
	setup("stuck_service_base_time_ms=" + strconv.Itoa(500+1000*vrt.Choose("base", 3)))
	n, from := 0, vrt.Choose("from", 2)
	times := 1 + 100*vrt.Choose("always", 2)
	tctxmanager.RegisterEndStuckServiceForciblyFunc(func(*netio.TraceContext) {
		n++
		if n > from && n <= from+times {
			panic("evil removal")
		}
	})
	agenttask.SendObjPack()
	agenttask.Start()
	countertask.Start()
	ctx := strace.StartService(context.Background(), "/s", "1.2.3.4")
	vrt.RunFor(14100)
	strace.EndService(ctx)
	before := len(net.Datagrams)
	vrt.RunFor(2000)
	real := 0
	for _, p := range hcommon.Collect(net.Datagrams[before:]).Packs {
		if p.Tag == 60 {
			real++
		}
	}
	vrt.Assert(real == 1, "the counters are not sent any more after a panic")
	works()
}

// H_Host: panics of the host's own functions.
func H_Host() {
	vrt.Bound("a panic of a function of the host, with any value of one byte or a run-time error, in a service that it ends in a deferred call (each way of ending), in a function run by GoWithTrace in or out of a service, before or after steps")
	var seen []interface{}
	vrt.ThreadPanic = func(r interface{}) bool { seen = append(seen, r); return true }
	setup()
	common.RegisterSendPanicF(func(m string) { vrt.Fail("a panic of the host is taken for one of the agent") })
	v := vrt.U8("value")
	boom := func() {
		panic(v)
	}
	ctx := context.Background()
	in := vrt.Choose("service", 2) == 1
	if in {
		ctx = strace.StartService(ctx, "/s", "1.2.3.4")
	}
	steps := vrt.Choose("steps", 2) == 1
	body := func(c context.Context) {
		if steps {
			strace.AddMessageStep(c, "m")
			defer strace.EndMethod(c, strace.StartCustomMethod(c, "x"))
			defer strace.EndApiCall(c, strace.StartApiCall(c, "x", "y"), nil)
		}
		boom()
	}
	switch vrt.Choose("way", 4) {
	case 0:
		r := vrt.Catch(func() {
			defer strace.EndService(ctx)
			body(ctx)
		})
		vrt.Assert(r == interface{}(v), "a panic of the host does not reach it unchanged")
	case 1:
		r := vrt.Catch(func() {
			defer strace.EndHttpService(ctx, request(), &http.Response{StatusCode: 500})
			body(ctx)
		})
		vrt.Assert(r == interface{}(v), "a panic of the host does not reach it unchanged")
	case 2:
		r := vrt.Catch(func() {
			defer strace.MarkAsError(ctx, "e")
			defer strace.EndService(ctx)
			defer strace.AddMessageStep(ctx, "m")
			defer strace.SetServiceNameForcibly(ctx, "m")
			body(ctx)
		})
		vrt.Assert(r == interface{}(v), "a panic of the host does not reach it unchanged")
	case 3:
		strace.GoWithTrace(ctx, "/g", body)
		vrt.RunFor(10)
		vrt.Assert(len(seen) == 1, "a panic of the host's goroutine is swallowed")
		vrt.Assert(seen[0] == interface{}(v), "a panic of the host's goroutine is changed")
		strace.EndService(ctx)
	}
	vrt.RunFor(200)
	vrt.Assert(len(tctxmanager.GetAllTctx()) == 0, "a service is not ended when the host panics")
	works()
}
