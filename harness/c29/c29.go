// Package c29: a changed setting takes effect while the host runs.
package c29

import (
	"context"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/rand"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var server *hcommon.Server
var byCollector bool

func text(lines []string) string {
	t := ""
	for _, l := range lines {
		t += l + "\n"
	}
	return t
}

// begin starts the agent with a configuration.
func begin(lines ...string) {
	vrt.SetLimit(60000000)
	os.Setenv("SCOUTER_CONFIG", hconf.Path)
	os.Put(hconf.Path, []byte(text(lines)))
	scouterx.Init()
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	server = hcommon.NewServer()
	server.Hello()
	vrt.RunFor(5500)
}

// change gives the agent another configuration.
func change(lines ...string) {
	if byCollector {
		server.Call("SET_CONFIGURE_WAS", hcommon.Param{Key: "setConfig", Text: "#\n" + text(lines)})
		vrt.RunFor(1100)
	} else {
		os.Put(hconf.Path, []byte(text(lines)))
		vrt.RunFor(6100)
	}
	net.Datagrams, net.Dests = nil, nil
}

func collect() *hcommon.Collected {
	vrt.RunFor(1000)
	return hcommon.Collect(net.Datagrams)
}

// how chooses who makes change i, to setting k.
func how(i, k int) {
	if vrt.Thorough() {
		byCollector = vrt.Choose("by", 2) == 1
	} else {
		byCollector = (i+k)%2 == 1
	}
}

func rounds() int {
	if vrt.Thorough() {
		return 3
	}
	return 2
}

// H_Http: what is profiled of web services.
func H_Http() {
	vrt.Bound("2 (thorough: 3) configurations one after the other, in the file or by the collector (quick: in turn), each one of 8 settings of what is profiled of a web service and where its client's address is, any header value and query of one byte")
	n := rounds()
	lines := [][]string{
		nil,
		{"profile_http_querystring_enabled=true"},
		{"profile_http_header_enabled=true"},
		{"profile_http_header_enabled=true", "profile_http_header_keys=X-One"},
		{"profile_http_header_enabled=true", "profile_http_header_keys=X-Two"},
		{"trace_http_client_ip_header_key=X-Real-Ip"},
		{"trace_http_client_ip_header_key=X-Client"},
		{"profile_http_querystring_enabled=true", "profile_http_header_enabled=true", "profile_http_header_keys=X-One,X-Two", "trace_http_client_ip_header_key=X-Client"},
	}
	for i := 0; i < n; i++ {
		k := vrt.Choose("setting", len(lines))
		how(i, k)
		if i == 0 {
			begin(lines[k]...)
			net.Datagrams = nil
		} else {
			change(lines[k]...)
		}
		v, q := vrt.String("value", 1), vrt.String("query", 1)
		h := &http.Request{Method: "GET", URL: &url.URL{Path: "/p", RawQuery: q}, RemoteAddr: "10.1.2.3:80",
			Header: http.Header{"X-One": {v}, "X-Two": {"2"}, "X-Real-Ip": {"1.2.3.4"}, "X-Client": {"5.6.7.8"}}}
		ctx := strace.StartHttpService(context.Background(), h)
		t := tctxmanager.GetTraceContext(ctx)
		strace.EndHttpService(ctx, h, nil)
		got := collect()
		x := got.Xlog(t.Txid)
		ip := []string{"\x0a\x01\x02\x03", "\x01\x02\x03\x04", "\x05\x06\x07\x08"}[[]int{0, 0, 0, 0, 0, 1, 2, 2}[k]]
		vrt.Assert(x.Ipaddr == ip, "a change of where the client's address is has no effect")
		one, two, query := int64(0), int64(0), int64(0)
		for _, s := range got.Steps(t.Txid) {
			if s.Type == 3 {
				one += vrt.Ite(hcommon.Same([]byte(s.Text), []byte("header: X-One: "+v)), 1, 0)
				two += vrt.Ite(hcommon.Same([]byte(s.Text), []byte("header: X-Two: 2")), 1, 0)
				query += vrt.Ite(hcommon.Same([]byte(s.Text), []byte("query: "+q)), 1, 0)
			}
		}
		vrt.Assert(one == []int64{0, 0, 1, 1, 0, 0, 0, 1}[k], "a change of which headers are profiled has no effect")
		vrt.Assert(two == []int64{0, 0, 1, 0, 1, 0, 0, 1}[k], "a change of which headers are profiled has no effect")
		vrt.Assert(query == []int64{0, 1, 0, 0, 0, 0, 0, 1}[k], "a change of whether the query is profiled has no effect")
	}
}

// H_Profile: how many steps are kept and sent together.
func H_Profile() {
	vrt.Bound("2 (thorough: 3) configurations one after the other, in the file or by the collector (quick: in turn), each keeping 1..4 steps in memory and sending 1..3 of them together; services of 0, 2, 3, 5 or 6 (thorough: 0..6) steps; quick starts with keep+bulk = 5")
	n := rounds()
	steps := vrt.Choose("steps", 7)
	if !vrt.Thorough() {
		vrt.Assume(steps%3 != 1)
	}
	for i := 0; i < n; i++ {
		keep, bulk := 1+vrt.Choose("keep", 4), 1+vrt.Choose("bulk", 3)
		if i == 0 && !vrt.Thorough() {
			vrt.Assume(keep+bulk == 5)
		}
		how(i, keep+bulk)
		lines := []string{"profile_step_max_keep_in_memory_count=" + strconv.Itoa(keep), "profile_step_max_count=" + strconv.Itoa(bulk)}
		if i == 0 {
			begin(lines...)
			net.Datagrams = nil
		} else {
			change(lines...)
		}
		ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
		t := tctxmanager.GetTraceContext(ctx)
		from := len(hcommon.Collect(net.Datagrams).Steps(t.Txid))
		v := int32(100)
		m := vrt.String("m", 1)
		for k := 0; k < steps; k++ {
			strace.AddStep(ctx, netdata.NewMessageStep(m, v+int32(k)))
		}
		vrt.RunFor(1000)
		// the first step is the agent's own
		sent := (steps + 1) / keep * keep
		vrt.Assert(from == 0 && len(hcommon.Collect(net.Datagrams).Steps(t.Txid)) == sent, "a change of how many steps are kept has no effect")
		strace.EndService(ctx)
		got := collect()
		ss := got.Steps(t.Txid)
		vrt.Assert(len(ss) == steps+1, "not every step is delivered once")
		most, least := 0, 0
		for _, p := range got.Packs {
			if p.Profile != nil && p.Profile.Txid == t.Txid {
				if len(p.Profile.Steps) > most {
					most = len(p.Profile.Steps)
				}
				if len(p.Profile.Steps) < bulk {
					least++
				}
			}
		}
		vrt.Assert(most <= bulk, "a change of how many steps are sent together has no effect")
		if keep%bulk == 0 {
			vrt.Assert(least <= 1, "a change of how many steps are sent together has no effect")
		}
		for k := 0; k < steps; k++ {
			vrt.Assert(ss[k+1].Start == v+int32(k), "the steps are not delivered in order")
		}
	}
}

// H_Decide: which services are sent.
func H_Decide() {
	vrt.Bound("2 (thorough: 3) configurations one after the other, in the file or by the collector (quick: in turn), each one of 12 settings of sampling and discarding; services of any elapsed time of up to 255 ms and any draw")
	n := rounds()
	never := func(p string) []string {
		return []string{p + "enabled=true", p + "service_patterns=/a*", p + "step1_ms=100", p + "step1_rate_pct=0", p + "step2_ms=200", p + "step2_rate_pct=100", p + "step3_rate_pct=0", p + "over_rate_pct=0"}
	}
	lines := [][]string{
		nil,
		{"xlog_discard_service_patterns=/a*"},
		{"xlog_discard_service_patterns=/b*"},
		{"xlog_discard_service_patterns=/a*", "xlog_discard_service_show_error=false"},
		append(never("xlog_sampling_"), "xlog_sampling_exclude_patterns=/b*"),
		append(never("xlog_sampling_"), "xlog_sampling_exclude_patterns=/a*"),
		never("xlog_patterned_sampling_"),
		never("xlog_patterned2_sampling_"),
		never("xlog_patterned3_sampling_"),
		append(never("xlog_sampling_"), "xlog_sampling_only_profile=true"),
		append(never("xlog_patterned2_sampling_"), "xlog_patterned2_sampling_only_profile=true"),
		append(never("xlog_patterned_sampling_"), "xlog_patterned_sampling_service_patterns=/b*"),
	}
	failed := vrt.Choose("failed", 2) == 1
	elapsed := int64(vrt.U8("elapsed"))
	rand.Draw = func(n int64) int64 { return int64(vrt.Range("draw", 0, int(n-1))) }
	for i := 0; i < n; i++ {
		k := vrt.Choose("setting", len(lines))
		how(i, k)
		if i == 0 {
			begin(lines[k]...)
			net.Datagrams = nil
		} else {
			change(lines[k]...)
		}
		ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
		t := tctxmanager.GetTraceContext(ctx)
		if failed {
			strace.MarkAsError(ctx, "e")
		}
		t.StartTime = t.StartTime.Add(-time.Duration(elapsed) * time.Millisecond)
		strace.EndService(ctx)
		got := collect()
		xlog, profile := len(got.Xlogs(t.Txid)) == 1, len(got.Steps(t.Txid)) > 0
		within := vrt.And(elapsed >= 100, elapsed < 200)
		wantX, wantP := true, true
		switch k {
		case 1:
			wantX, wantP = failed, failed
		case 3:
			wantX, wantP = false, false
		case 4, 6, 7, 8:
			wantX = vrt.Or(failed, within)
			wantP = wantX
		case 9, 10:
			wantP = vrt.Or(failed, within)
		}
		vrt.Assert(xlog == wantX, "a change of which services are sent has no effect")
		vrt.Assert(profile == wantP, "a change of which profiles are sent has no effect")
	}
}

// H_Active: how active services are judged.
func H_Active() {
	vrt.Bound("2 (thorough: 3) configurations one after the other, in the file or by the collector (quick: in turn), of 4 thresholds of slow services or 3 other settings of stuck ones; an active service of any age up to 30 s")
	n := rounds()
	age := int64(vrt.Range("age", 0, 30000))
	for i := 0; i < n; i++ {
		yellow, red := 3000, 8000
		limit, alert, remove := 300000, true, true
		var lines []string
		k := vrt.Choose("setting", 7)
		how(i, k)
		switch k {
		case 1, 2, 3:
			yellow, red = k*1000+111, k*2000+777
			lines = []string{"trace_activeservice_yellow_time=" + strconv.Itoa(yellow), "trace_activeservice_red_time=" + strconv.Itoa(red)}
		case 4:
			limit = 5000
			lines = []string{"stuck_service_base_time_ms=5000"}
		case 5:
			limit, alert = 7000, false
			lines = []string{"stuck_service_base_time_ms=7000", "stuck_service_alert_enabled=false"}
		case 6:
			limit, remove = 6000, false
			lines = []string{"stuck_service_base_time_ms=6000", "stuck_service_remove_enabled=false"}
		}
		if i == 0 {
			begin(lines...)
			net.Datagrams = nil
		} else {
			change(lines...)
		}
		ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
		t := tctxmanager.GetTraceContext(ctx)
		t.StartTime = t.StartTime.Add(-time.Duration(age) * time.Millisecond)
		counts := tctxmanager.GetActiveCount()
		vrt.Assert(counts[0]+counts[1]+counts[2] == 1, "an active service is not counted once")
		a := int(age)
		vrt.Assert(counts[0] == vrt.Ite(a <= yellow, 1, 0), "a change of when an active service is slow has no effect")
		vrt.Assert(counts[2] == vrt.Ite(a <= yellow, 0, vrt.Ite(a <= red, 0, 1)), "a change of when an active service is very slow has no effect")
		vrt.RunFor(300)
		got := hcommon.Collect(net.Datagrams)
		alerts := 0
		for _, p := range got.Packs {
			if p.Tag == 70 {
				alerts++
				vrt.Assert((p.Level == 2) == alert, "a change of the level of alerts of stuck services has no effect")
			}
		}
		stuck := a > limit
		vrt.Assert((alerts > 0) == stuck, "a change of when a service is stuck has no effect")
		vrt.Assert((tctxmanager.GetTraceContextByTxid(t.Txid) == nil) == vrt.And(stuck, remove), "a change of whether stuck services are ended has no effect")
		strace.EndService(ctx)
		vrt.RunFor(300)
	}
}

// H_Object: what the host is called.
func H_Object() {
	vrt.Bound("2 (thorough: 3) configurations one after the other, in the file or by the collector (quick: in turn), with any name of the object of one letter and any type of one letter or the usual ones")
	n := rounds()
	for i := 0; i < n; i++ {
		name, typ := "go1", "golang"
		var lines []string
		how(i, 0)
		if vrt.Choose("named", 2) == 1 {
			name = vrt.StringOver("name", 1, "ab")
			lines = append(lines, "obj_name="+name)
		}
		if vrt.Choose("typed", 2) == 1 {
			typ = vrt.StringOver("type", 1, "ab")
			lines = append(lines, "obj_type="+typ)
		}
		if i == 0 {
			begin(lines...)
			net.Datagrams = nil
		} else {
			change(lines...)
		}
		hash := hcommon.Crc("/host/" + name)
		vrt.RunFor(2500)
		net.Datagrams = nil
		ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
		t := tctxmanager.GetTraceContext(ctx)
		vrt.RunFor(3000)
		strace.EndService(ctx)
		got := collect()
		vrt.Assert(got.Xlog(t.Txid).ObjHash == hash, "a change of the object's name has no effect on transactions")
		seen := 0
		for _, p := range got.Packs {
			switch {
			case p.Profile != nil:
				vrt.Assert(p.Profile.ObjHash == hash, "a change of the object's name has no effect on profiles")
			case p.Tag == 60:
				seen |= 1
				vrt.Assert(hcommon.Same([]byte(p.ObjName), []byte("/host/"+name)), "a change of the object's name has no effect on counters")
			case p.Tag == 80:
				seen |= 2
				vrt.Assert(p.Hash == hash && hcommon.Same([]byte(p.ObjName), []byte("/host/"+name)), "a change of the object's name has no effect on its registration")
				vrt.Assert(hcommon.Same([]byte(p.ObjType), []byte(typ)), "a change of the object's type has no effect on its registration")
			}
		}
		vrt.Assert(seen == 3, "counters or registrations are not sent")
	}
}

// H_Collector: where the collector is.
func H_Collector() {
	vrt.Bound("2 (thorough: 3) configurations one after the other in the file, each with one of 2 addresses (one with any last digit from 2), 2 ports each for UDP and TCP, 2 time-outs and 2 limits of a datagram (quick: the limit goes with the UDP port)")
	n := rounds()
	for i := 0; i < n; i++ {
		ip := "127.0.0.1"
		if vrt.Choose("ip", 2) == 1 {
			ip = "10.9.8." + vrt.StringOver("ip", 1, "23456789")
		}
		udp := []string{"6100", "7100"}[vrt.Choose("udp", 2)]
		tcp := []string{"6100", "7200"}[vrt.Choose("tcp", 2)]
		so := []int64{60000, 4000}[vrt.Choose("so", 2)]
		max := 60000
		if vrt.Thorough() && vrt.Choose("max", 2) == 1 || !vrt.Thorough() && udp == "7100" {
			max = 40
		}
		lines := []string{"net_collector_ip=" + ip, "net_collector_udp_port=" + udp, "net_collector_tcp_port=" + tcp,
			"net_collector_tcp_so_timeout_ms=" + strconv.Itoa(int(so)), "udp_max_bytes=" + strconv.Itoa(max)}
		if i == 0 {
			begin(lines...)
		} else {
			change(lines...)
		}
		if !server.Conn.Closed {
			server.Send(hcommon.Request("KEEP_ALIVE")) // the session notices after it
		}
		there := false
		for k := 0; k < 40 && !there; k++ {
			vrt.RunFor(500)
			there = !server.Conn.Closed && hcommon.Same([]byte(net.DialAddrs[len(net.DialAddrs)-1]), []byte(ip+":"+tcp))
		}
		vrt.Assert(there, "a change of the collector's address has no effect on the session")
		server.Send(hcommon.Request("KEEP_ALIVE"))
		vrt.RunFor(300)
		left := (server.Conn.ReadDL - vrt.NowNS()) / 1000000
		vrt.Assert(left <= so && left > so-1000, "a change of the time-out has no effect")
		net.Datagrams, net.Dests = nil, nil
		vrt.RunFor(5000)
		vrt.Assert(len(net.Datagrams) > 0, "nothing is sent to the collector")
		big := 0
		for k, d := range net.Dests {
			vrt.Assert(hcommon.Same([]byte(d), []byte(ip+":"+udp)), "a change of the collector's address has no effect on packs")
			if len(net.Datagrams[k]) > 100 {
				big++
			}
		}
		vrt.Assert((big > 0) == (max == 60000), "a change of the largest datagram has no effect")
	}
}
