// Package c13: the transaction record says what happened in the service.
package c13

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strconv"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace netio

func setup(lines ...string) *conf.Configure {
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	c := hconf.Set(lines...)
	c.ObjHash = 77
	return c
}

// collect returns what is sent until all is quiet.
func collect() *hcommon.Collected {
	vrt.RunFor(400)
	return hcommon.Collect(net.Datagrams)
}

// untouched asserts that whatever of a record did not come up in its service is as it is at the start.
func untouched(x hcommon.Xlog) {
	vrt.Assert(x.Error == 0, "a service without an error carries one")
	vrt.Assert(x.Status == 0, "a service without a status carries one")
	vrt.Assert(x.Userid == 0 && x.SqlCount == 0 && x.SqlTime == 0 && x.ApicallCount == 0 && x.ApicallTime == 0, "a service without users, sqls and calls carries some")
	vrt.Assert(x.UserAgent == 0 && x.Referer == 0 && x.Login == 0 && x.Desc == 0, "a service without agent, referer, login and description carries one")
	vrt.Assert(x.Text1 == "" && x.Text2 == "" && x.Text3 == "" && x.Text4 == "" && x.Text5 == "", "a service without texts carries one")
	vrt.Assert(x.Caller == 0, "a service without a caller carries one")
}

// H_Numbers: each number of the trace context, one at a time over all values.
func H_Numbers() {
	vrt.Bound("every value of one number at a time, the others distinct constants; elapsed times in windows of 1.5 s (9 s in thorough) at 0, 32 s, 300 s and 2^31 ms; Gxid and Caller over all 64-bit values, the object hash over all 32-bit values")
	c := setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	t.Caller, t.SqlCount, t.SqlTime, t.Userid, t.Error = 1001, 102, 103, 1004, 105
	t.Status, t.UserAgent, t.Referer, t.ApicallCount, t.ApicallTime = 106, 107, 108, 109, 110
	if vrt.Choose("gxid", 2) == 1 {
		t.Gxid = 1011
	}
	elapsed := int64(111)
	switch vrt.Choose("field", 13) {
	case 0:
		t.Caller = vrt.I64("v")
	case 1:
		t.XType = netdata.XlogType(vrt.U8("v"))
	case 2:
		t.SqlCount = vrt.I32("v")
	case 3:
		t.SqlTime = vrt.I32("v")
	case 4:
		t.Userid = vrt.I64("v")
	case 5:
		t.Error = vrt.I32("v")
	case 6:
		t.Status = vrt.I32("v")
	case 7:
		t.UserAgent = vrt.I32("v")
	case 8:
		t.Referer = vrt.I32("v")
	case 9:
		t.ApicallCount = vrt.I32("v")
	case 10:
		t.ApicallTime = vrt.I32("v")
	case 11:
		e := vrt.U16("v")
		vrt.Assume(e < 1500 || vrt.Thorough() && e < 9000)
		elapsed = int64(e) + []int64{0, 32000, 299900, 2147483647 - 9000}[vrt.Choose("base", 4)]
	case 12:
		c.ObjHash = vrt.I32("v")
	}
	vrt.Advance(elapsed)
	want := *t
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(x.Txid == want.Txid && x.Gxid == want.Gxid && x.Caller == want.Caller, "an id of the record is wrong")
	vrt.Assert(int64(x.Elapsed) == elapsed, "the elapsed time is wrong")
	vrt.Assert(x.XType == byte(want.XType), "the type of the service is wrong")
	vrt.Assert(vrt.And(x.SqlCount == want.SqlCount, x.SqlTime == want.SqlTime), "the sql counts are wrong")
	vrt.Assert(x.Userid == want.Userid, "the user is wrong")
	vrt.Assert(x.Error == want.Error, "the error is wrong")
	vrt.Assert(x.Status == want.Status, "the status is wrong")
	vrt.Assert(vrt.And(x.UserAgent == want.UserAgent, x.Referer == want.Referer), "the user agent or referer is wrong")
	vrt.Assert(vrt.And(x.ApicallCount == want.ApicallCount, x.ApicallTime == want.ApicallTime), "the api call counts are wrong")
	vrt.Assert(x.ObjHash == c.ObjHash, "the object hash is wrong")
	vrt.Assert(x.Ipaddr == "\x01\x02\x03\x04", "the remote address is wrong")
	vrt.Assert(got.Text("service", x.Service) == "/a", "the service name is wrong")
	got.Text("hmsg", x.ThreadName)
}

// H_Texts: each text of the trace context, one at a time over all short texts.
func H_Texts() {
	n := 3
	vrt.Bound("all texts up to 3 bytes (no two of which share a hash), and texts of 300 and 1100 bytes with any last byte, for one text at a time, the others distinct constants")
	setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	name := "/a"
	w := [7]string{"t1", "t2", "t3", "t4", "t5", "login", "desc"}
	f := vrt.Choose("field", 9)
	v := ""
	if k := vrt.Choose("long", 3); k > 0 {
		// only the last byte is arbitrary: the hash of the rest is that of a constant
		b := make([]byte, []int{0, 300, 1100}[k])
		for i := range b {
			b[i] = byte('a' + i%23)
		}
		b[len(b)-1] = vrt.U8("v")
		v = string(b)
	} else {
		v = vrt.StringUpTo("v", n)
	}
	if f < 7 {
		w[f] = v
	} else if name = v; f == 7 {
		strace.SetServiceNameForcibly(ctx, name)
	} else {
		t.ServiceName = name
	}
	t.Text1, t.Text2, t.Text3, t.Text4, t.Text5, t.Login, t.Desc = w[0], w[1], w[2], w[3], w[4], w[5], w[6]
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(x.Text1 == w[0] && x.Text2 == w[1] && x.Text3 == w[2] && x.Text4 == w[3] && x.Text5 == w[4], "a text of the record is wrong")
	vrt.Assert(got.Text("login", x.Login) == w[5], "the login is wrong")
	vrt.Assert(got.Text("desc", x.Desc) == w[6], "the description is wrong")
	vrt.Assert(got.Text("service", x.Service) == name, "the service name is wrong")
	y := *x
	y.Text1, y.Text2, y.Text3, y.Text4, y.Text5, y.Login, y.Desc = "", "", "", "", "", 0, 0
	untouched(y)
	for _, p := range got.Packs {
		if p.Profile != nil {
			vrt.Assert(p.Profile.Service == x.Service && p.Profile.ObjHash == 77, "the profile is of another service")
		}
	}
}

// H_Same: the same text in every place.
func H_Same() {
	vrt.Bound("a text of one arbitrary byte and more as name, error, login, description and the five texts, agent and referer of a service (plain, web service or goroutine; a stream or not; profile kept or dropped; record kept or not by the error)")
	v := "a/" + vrt.String("v", 1)
	c := setup()
	if vrt.Choose("drop", 2) == 1 {
		c.XlogSamplingEnabled, c.XlogSamplingOnlyProfile = true, true
		c.XlogSamplingStep1RatePct, c.XlogSamplingStep2RatePct, c.XlogSamplingStep3RatePct, c.XlogSamplingOverRatePct = 0, 0, 0, 0
	}
	kind, failed, stream := vrt.Choose("kind", 3), vrt.Choose("failed", 2) == 1, vrt.Choose("stream", 2) == 1
	var t *netio.TraceContext
	fill := func(ctx context.Context) {
		t = tctxmanager.GetTraceContext(ctx)
		if stream {
			strace.SetAsStream(ctx)
		}
		strace.SetServiceNameForcibly(ctx, v)
		t.Login, t.Desc = v, v
		t.Text1, t.Text2, t.Text3, t.Text4, t.Text5 = v, v, v, v, v
		if failed {
			strace.MarkAsError(ctx, v)
		}
		vrt.Advance(7)
	}
	agent := ""
	switch kind {
	case 0:
		ctx := strace.StartService(context.Background(), v, "1.2.3.4")
		fill(ctx)
		strace.EndService(ctx)
	case 1:
		agent = "a/" + v[2:]
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/b"}, RemoteAddr: "1.2.3.4:80", Header: http.Header{"User-Agent": {agent}, "Referer": {agent}}}
		ctx := strace.StartHttpService(context.Background(), req)
		fill(ctx)
		strace.EndHttpService(ctx, req, nil)
	case 2:
		strace.GoWithTrace(strace.StartService(context.Background(), v, "1.2.3.4"), v, fill)
	}
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(got.Text("service", x.Service) == v, "the service name is wrong")
	vrt.Assert(got.Text("login", x.Login) == v, "the login is wrong")
	vrt.Assert(got.Text("desc", x.Desc) == v, "the description is wrong")
	if failed {
		vrt.Assert(got.Text("error", x.Error) == v, "the error is wrong")
	} else {
		vrt.Assert(x.Error == 0, "a service without an error carries one")
	}
	vrt.Assert(got.Text("ua", x.UserAgent) == agent && got.Text("referer", x.Referer) == agent, "the user agent or referer is wrong")
	vrt.Assert(x.Text1 == v && x.Text2 == v && x.Text3 == v && x.Text4 == v && x.Text5 == v, "a text of the record is wrong")
	vrt.Assert(x.Elapsed == 7 && x.Ipaddr == "\x01\x02\x03\x04", "the elapsed time or the address is wrong")
}

// H_Next: a service has nothing of the one before it.
func H_Next() {
	vrt.Bound("a service with everything set, any numbers in it, ended or removed as stuck, and after it a service with nothing set (plain, web service or goroutine)")
	setup("stuck_service_base_time_ms=1000")
	ctx := strace.StartService(context.Background(), "/first", "9.8.7.6")
	t := tctxmanager.GetTraceContext(ctx)
	v := vrt.I32("v")
	t.Caller, t.SqlCount, t.SqlTime, t.Userid, t.Status = 1001, v, v, int64(v), v
	t.UserAgent, t.Referer, t.ApicallCount, t.ApicallTime, t.Gxid = v, v, 5, v, 99
	t.Text1, t.Text2, t.Text3, t.Text4, t.Text5, t.Login, t.Desc = "1", "2", "3", "4", "5", "6", "7"
	strace.MarkAsError(ctx, "bad")
	strace.EndApiCall(ctx, strace.StartApiCall(ctx, "call", ""), errors.New("worse"))
	strace.StartCustomMethod(ctx, "left open")
	if vrt.Choose("stuck", 2) == 1 {
		vrt.Advance(1500)
		tctxmanager.GetActiveCount()
	} else {
		strace.EndService(ctx)
	}
	collect()
	net.Datagrams = nil
	var next, parent *netio.TraceContext
	switch vrt.Choose("next", 3) {
	case 0:
		ctx := strace.StartService(context.Background(), "/b", "1.2.3.4")
		next = tctxmanager.GetTraceContext(ctx)
		strace.EndService(ctx)
	case 1:
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/b"}, RemoteAddr: "1.2.3.4:80", Header: http.Header{}}
		ctx := strace.StartHttpService(context.Background(), req)
		next = tctxmanager.GetTraceContext(ctx)
		strace.EndHttpService(ctx, req, nil)
	case 2:
		ctx := strace.StartService(context.Background(), "/b", "1.2.3.4")
		parent = tctxmanager.GetTraceContext(ctx)
		strace.GoWithTrace(ctx, "/go", func(ctx context.Context) { next = tctxmanager.GetTraceContext(ctx) })
	}
	got := collect()
	x := got.Xlog(next.Txid)
	y := *x
	if parent == nil {
		parent = next
	} else {
		vrt.Assert(x.Caller == parent.Txid, "a goroutine has the caller of the service before it")
		y.Caller = 0
	}
	untouched(y)
	vrt.Assert(x.Gxid == parent.Txid && parent.Txid != t.Txid && next.Txid != t.Txid, "a service has the id or group of the one before it")
	vrt.Assert(x.Ipaddr != "\x09\x08\x07\x06", "a service has the address of the one before it")
	for i, s := range got.Steps(next.Txid) {
		vrt.Assert(s.Index == int32(i) && s.Parent == 0, "a step of a service continues those of the one before it")
	}
}

// H_Headers: which headers and which query are profiled.
func H_Headers() {
	vrt.Bound("5 headers with one or two values of any byte, any of them listed (apart by comma, with or without blanks) or none; query of 0..2 any bytes, profiled or not")
	keys := []string{"X-A", "X-Bb", "Cookie", "User-Agent", "Accept-Language"}
	h := &http.Request{Method: "GET", URL: &url.URL{Path: "/p", RawQuery: vrt.String("query", vrt.Choose("length", 3))}, Header: http.Header{}, RemoteAddr: "1.2.3.4:1"}
	values := make([]string, len(keys))
	v := vrt.String("v", 1)
	for i, k := range keys {
		values[i] = strconv.Itoa(i) + v
		h.Header.Add(k, values[i])
		if i%2 == 1 {
			h.Header.Add(k, v+"z")
			values[i] += "," + v + "z"
		}
	}
	list, listed := "", [5]bool{}
	sep := []string{",", ", "}[vrt.Choose("blank", 2)]
	for i, k := range keys {
		if vrt.Choose("listed", 2) == 1 {
			listed[i] = true
			if list != "" {
				list += sep
			}
			list += k
		}
	}
	lines := []string{"profile_http_header_enabled=true"}
	if list != "" {
		lines = append(lines, "profile_http_header_keys="+list)
	}
	query := vrt.Choose("profiled", 2) == 1
	if query {
		lines = append(lines, "profile_http_querystring_enabled=true")
	}
	setup(lines...)
	ctx := strace.StartHttpService(context.Background(), h)
	t := tctxmanager.GetTraceContext(ctx)
	strace.EndHttpService(ctx, h, nil)
	var seen [5]int
	var q int64
	headers := 0
	for _, s := range collect().Steps(t.Txid) {
		if s.Type != 3 {
			continue
		}
		if len(s.Text) > 7 && s.Text[:7] == "header:" {
			headers++
			for i, k := range keys {
				text := "header: " + k + ": " + values[i]
				if len(s.Text) > len(text) && s.Text[8] == ' ' {
					text = "header:  " + k + ": " + values[i]
				}
				if len(s.Text) == len(text) && s.Text[:len(text)-len(values[i])] == text[:len(text)-len(values[i])] {
					vrt.Assert(hcommon.Same([]byte(s.Text), []byte(text)), "the value of a profiled header is wrong")
					seen[i]++
				}
			}
		}
		if len(s.Text) >= 6 && s.Text[:6] == "query:" {
			q++
			vrt.Assert(hcommon.Same([]byte(s.Text), []byte("query: "+h.URL.RawQuery)), "the profiled query is wrong")
		}
	}
	for i := range keys {
		want := 0
		if list == "" || listed[i] {
			want = 1
		}
		headers -= want
		vrt.Assert(seen[i] == want, "a header is profiled though it is not listed, or the other way round")
	}
	vrt.Assert(headers == 0, "other headers are profiled")
	vrt.Assert(q == vrt.Ite(query, 1, 0), "the query is profiled though it should not be, or the other way round")
}

// H_Http: what is taken from an http request and response.
func H_Http() {
	vrt.Bound("all combinations of remote address forms, client address header set or not, agent, referer, header and query profiling, status (all values) and response present or not")
	addrs := []string{"10.20.30.255:8080", "10.20.30.255", "[::1]:8080", ""}
	bytes := []string{"\x0a\x14\x1e\xff", "\x0a\x14\x1e\xff", "\x00\x00\x00\x00", "\x00\x00\x00\x00"}
	a := vrt.Choose("addr", len(addrs))
	h := &http.Request{Method: "PUT", URL: &url.URL{Path: "/p/q", RawQuery: "k=v&z"}, Header: http.Header{}, RemoteAddr: addrs[a]}
	ip := bytes[a]
	var lines []string
	switch vrt.Choose("client ip", 4) {
	case 3:
		lines = append(lines, "trace_http_client_ip_header_key=x-real-ip")
		h.Header.Set("X-Real-Ip", "unknown")
		ip = "\x00\x00\x00\x00"
	case 1:
		lines = append(lines, "trace_http_client_ip_header_key=X-Real-Ip")
	case 2:
		lines = append(lines, "trace_http_client_ip_header_key=X-Real-Ip")
		h.Header.Set("X-Real-Ip", "1.2.3.4")
		ip = "\x01\x02\x03\x04"
	}
	ua, ref := "", ""
	if vrt.Choose("agent", 2) == 1 {
		ua = "agent/1"
		h.Header.Set("User-Agent", ua)
	}
	if vrt.Choose("referer", 2) == 1 {
		ref = "http://from"
		h.Header.Set("Referer", ref)
	}
	h.Header.Add("X-One", "1")
	h.Header.Add("X-One", "2")
	h.Header.Set("X-Two", "3")
	head := vrt.Choose("headers", 3)
	switch head {
	case 1:
		lines = append(lines, "profile_http_header_enabled=true")
	case 2:
		lines = append(lines, "profile_http_header_enabled=true", "profile_http_header_keys=X-None, x-one")
	}
	query := vrt.Choose("query", 2) == 1
	if query {
		lines = append(lines, "profile_http_querystring_enabled=true")
	}
	setup(lines...)
	ctx := strace.StartHttpService(context.Background(), h)
	t := tctxmanager.GetTraceContext(ctx)
	status := int32(0)
	var res *http.Response
	if vrt.Choose("response", 2) == 1 {
		status = vrt.I32("status")
		res = &http.Response{StatusCode: int(status), Status: "500 what", Header: http.Header{"Content-Type": {"text/plain"}}, ContentLength: 10}
	}
	strace.EndHttpService(ctx, h, res)
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(x.XType == 0, "the type of a web service is wrong")
	vrt.Assert(x.Ipaddr == ip, "the remote address is wrong")
	vrt.Assert(got.Text("service", x.Service) == "/p/q<PUT>", "the name of a web service is wrong")
	vrt.Assert(got.Text("ua", x.UserAgent) == ua, "the user agent is wrong")
	vrt.Assert(got.Text("referer", x.Referer) == ref, "the referer is wrong")
	vrt.Assert(x.Status == status, "the status is wrong")
	y := *x
	y.Status, y.UserAgent, y.Referer = 0, 0, 0
	untouched(y)
	one, two, none, q := 0, 0, 0, 0
	for _, s := range got.Steps(t.Txid) {
		if s.Type != 3 {
			continue
		}
		switch s.Text {
		case "header: X-One: 1,2", "header: x-one: 1,2", "header:  x-one: 1,2":
			one++
		case "header: X-Two: 3":
			two++
		case "query: k=v&z":
			q++
		default:
			if len(s.Text) >= 12 && s.Text[:12] == "header: X-No" {
				none++
			}
		}
	}
	n := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	vrt.Assert(one == n(head > 0) && two == n(head == 1) && none == 0, "the profiled headers are wrong")
	vrt.Assert(q == n(query), "the profiled query is wrong")
}

// H_Errors: which error the record carries and what calls are counted.
func H_Errors() {
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	vrt.Bound("all sequences of 3 (4 in thorough) errors and api calls; durations of calls 0..255 ms")
	setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	msgs := []string{"e0", "e1", "e2", "e3"}
	want := ""
	calls, took := int32(0), int32(0)
	var pm []string
	var cs []string
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 5) {
		case 0:
			strace.MarkAsError(ctx, msgs[i])
			pm = append(pm, msgs[i])
			if want == "" {
				want = msgs[i]
			}
		case 1:
			strace.MarkAsErrorForcibly(ctx, msgs[i])
			want = msgs[i]
		case 2, 3:
			s := strace.StartApiCall(ctx, "call", "addr")
			d := int64(5)
			if i == 0 {
				d = int64(vrt.U8("ms"))
			}
			vrt.Advance(d)
			strace.EndApiCall(ctx, s, nil)
			calls++
			took += int32(d)
			cs = append(cs, "")
		case 4:
			s := strace.StartApiCall(ctx, "call", "addr")
			vrt.Advance(9)
			strace.EndApiCall(ctx, s, errors.New(msgs[i]))
			calls++
			took += 9
			cs = append(cs, msgs[i])
			if want == "" {
				want = msgs[i]
			}
		}
	}
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(got.Text("error", x.Error) == want, "the error of the record is not the first one, or the forced one")
	vrt.Assert(x.ApicallCount == calls && x.ApicallTime == took, "the api calls are counted wrong")
	y := *x
	y.Error, y.ApicallCount, y.ApicallTime = 0, 0, 0
	untouched(y)
	for _, s := range got.Steps(t.Txid) {
		switch s.Type {
		case 17:
			vrt.Assert(len(pm) > 0 && got.Text("hmsg", s.Hash) == pm[0] && s.Level == 3, "the step of an error is wrong")
			pm = pm[1:]
		case 6:
			vrt.Assert(len(cs) > 0 && got.Text("error", s.Error) == cs[0], "the error of a call is wrong")
			cs = cs[1:]
		}
	}
	vrt.Assert(len(pm) == 0 && len(cs) == 0, "a step is missing")
}

// H_Shared: two goroutines use the context of one service.
func H_Shared() {
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Bound("two goroutines, each with an api call that fails or not, lasting 0..255 ms, and an error or message; all schedules with 1 switch (2 in thorough) between statements of strace and netio; data races")
	setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	errs := []string{}
	run := func(name string, kind int, ms int64) {
		s := strace.StartApiCall(ctx, name, "addr")
		if ms > 0 {
			vrt.Advance(ms)
		}
		if kind > 0 {
			strace.EndApiCall(ctx, s, errors.New("e"+name))
		} else {
			strace.EndApiCall(ctx, s, nil)
		}
		if kind == 2 {
			strace.MarkAsError(ctx, "m"+name)
		} else {
			strace.AddMessageStep(ctx, "text"+name)
		}
	}
	ka, kb := vrt.Choose("a", 3), vrt.Choose("b", 3)
	if ka > 0 {
		errs = append(errs, "ea")
	}
	if kb > 0 {
		errs = append(errs, "eb")
	}
	ms := int64(vrt.U8("ms"))
	o := vrt.Spawn(func() { run("b", kb, 0) })
	vrt.Race()
	vrt.Among = []int{vrt.CurID(), o}
	vrt.Explore(n)
	run("a", ka, ms)
	vrt.Join(o)
	vrt.NoExplore()
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(t.Txid)
	vrt.Assert(x.ApicallCount == 2, "the api calls are counted wrong")
	failure := got.Text("error", x.Error)
	ok := len(errs) == 0 && failure == ""
	for _, e := range errs {
		ok = ok || failure == e
	}
	vrt.Assert(ok, "the error of the record is none of the service")
	steps := got.Steps(t.Txid)
	took, seen := int32(0), 0
	for _, s := range steps {
		if s.Type == 6 {
			took += s.Elapsed
		}
		seen |= 1 << uint(s.Index)
	}
	vrt.Assert(len(steps) == 5 && seen == 31 && x.ProfileCount == 5, "steps of a goroutine are missing")
	vrt.Assert(x.ApicallTime == took, "the time of the api calls is counted wrong")
}

// H_Profile: the numbers of profile steps and bytes.
func H_Profile() {
	vrt.Bound("0..5 messages, 1..4 steps kept in memory, bulks of 1..4 steps, profile sent or not")
	keep, bulk, n := 1+vrt.Choose("keep", 4), 1+vrt.Choose("bulk", 4), vrt.Choose("n", 6)
	c := setup()
	c.ProfileStepMaxKeepInMemoryCount, c.ProfileStepMaxCount = keep, bulk
	drop := vrt.Choose("drop", 2) == 1
	if drop {
		c.XlogSamplingEnabled, c.XlogSamplingOnlyProfile = true, true
		c.XlogSamplingStep1RatePct = 0
	}
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	for i := 0; i < n; i++ {
		strace.AddMessageStep(ctx, "some message")
	}
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(t.Txid)
	size, count := 0, 0
	for _, p := range got.Packs {
		if p.Profile != nil && p.Profile.Txid == t.Txid {
			size += p.Profile.Size
			count += len(p.Profile.Steps)
		}
	}
	vrt.Assert(int(x.ProfileCount) == count, "the number of profile steps in the record is not that sent")
	vrt.Assert(int(x.ProfileSize) == size, "the size of the profile in the record is not that sent")
}

var _ = netio.SendError
