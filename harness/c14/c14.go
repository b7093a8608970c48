// Package c14: transactions that belong together are linked.
package c14

import (
	"context"
	"errors"
	"net/http"
	"net/url"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace common/util

func setup() *conf.Configure {
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	return hconf.Set()
}

func collect() *hcommon.Collected {
	vrt.RunFor(400)
	return hcommon.Collect(net.Datagrams)
}

// base32 reads the collector's text form of an id: x or z for the sign, then digits of base 32.
func base32(s string) int64 {
	vrt.Assert(len(s) >= 2 && (s[0] == 'x' || s[0] == 'z'), "an id in a header is malformed")
	var v uint64
	for i := 1; i < len(s); i++ {
		c := s[i]
		vrt.Assert(vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.And(c >= 'a', c <= 'v')), "an id in a header is malformed")
		v = v<<5 | uint64(vrt.Ite(c <= '9', int64(c-'0'), int64(c-'a')+10))
	}
	if s[0] == 'z' {
		return -int64(v)
	}
	return int64(v)
}

func decimal(s string) int64 {
	neg := false
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i = 1
	}
	vrt.Assert(len(s) > i, "a number in a header is malformed")
	v := int64(0)
	for ; i < len(s); i++ {
		vrt.Assert(vrt.And(s[i] >= '0', s[i] <= '9'), "a number in a header is malformed")
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		return -v
	}
	return v
}

// ids are values of all signs and lengths.
var ids = []int64{1, -1, 31, -32, 1 << 32, -(1 << 35), 1<<63 - 1, -1 << 63, 4611686018427387905, -5000000000000000000}

func anID(name string) int64 {
	return ids[vrt.Choose(name, len(ids))]
}

func one(h http.Header, key string) string {
	v := h[key]
	vrt.Assert(len(v) == 1, "a header of the call is missing or repeated")
	return v[0]
}

// H_Propagate: an outgoing call carries the identity of its transaction.
func H_Propagate() {
	vrt.Bound("ids and object hashes of every sign and length at the limits; transaction id not yet grouped or member of another's group; call with or without error")
	c := setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	txid := t.Txid
	gxid := txid
	switch vrt.Choose("group", 3) {
	case 0:
		gxid = anID("gxid")
		t.Gxid = gxid
	case 1:
		t.Gxid = 0
	}
	c.ObjHash = []int32{0, 5, -5, 2147483647, -2147483648}[vrt.Choose("obj", 5)]
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{"Other": {"1"}}}
	s := strace.StartApiCallWithPropagation(ctx, req, "call", "addr")
	var err error
	if vrt.Choose("err", 2) == 1 {
		err = errors.New("bad")
	}
	strace.EndApiCall(ctx, s, err)
	strace.EndService(ctx)
	got := collect()
	x := got.Xlog(txid)
	vrt.Assert(x.Gxid == gxid, "the group of the record is not that of the transaction")
	vrt.Assert(base32(one(req.Header, "X-Scouter-Gxid")) == gxid, "the group in the header is not that of the transaction")
	vrt.Assert(base32(one(req.Header, "X-Scouter-Caller")) == txid, "the caller in the header is not the transaction")
	vrt.Assert(decimal(one(req.Header, "X-Scouter-Caller-Obj")) == int64(c.ObjHash), "the caller object in the header is not this agent")
	vrt.Assert(len(req.Header) == 5, "the headers of the call are changed")
	callee := base32(one(req.Header, "X-Scouter-Callee"))
	vrt.Assert(callee != 0 && callee != txid, "the call has no transaction id of its own")
	n := 0
	for _, st := range got.Steps(txid) {
		if st.Type == 6 {
			n++
			vrt.Assert(st.Txid == callee, "the callee in the header is not that of the step")
			vrt.Assert(got.Text("apicall", st.Hash) == "call" && st.Addr == "addr" && st.Opt == 1, "the step of the call is wrong")
			vrt.Assert((got.Text("error", st.Error) == "bad") == (err != nil), "the error of the call is wrong")
		}
	}
	vrt.Assert(n == 1, "the step of the call is not delivered exactly once")
}

// H_Header: the text form of ids.
func H_Header() {
	vrt.Bound("all 64-bit group ids")
	setup()
	ctx := strace.StartService(context.Background(), "/a", "1.2.3.4")
	t := tctxmanager.GetTraceContext(ctx)
	v := vrt.I64("gxid")
	vrt.Assume(v != 0)
	t.Gxid = v
	req := &http.Request{Header: http.Header{}}
	strace.StartApiCallWithPropagation(ctx, req, "call", "")
	vrt.Assert(base32(one(req.Header, "X-Scouter-Gxid")) == v, "the group in the header is not that of the transaction")
}

// H_Together: two services call others at the same time.
func H_Together() {
	vrt.Bound("two services with an outgoing call each in two goroutines; every statement of strace and common/util a possible switch, 1 (2) switches; data races")
	setup().ObjHash = 77
	var ids, groups [2]int64
	var reqs [2]*http.Request
	var ctxs [2]context.Context
	for i := range ids {
		ctxs[i] = strace.StartService(context.Background(), "/a", "1.2.3.4")
		t := tctxmanager.GetTraceContext(ctxs[i])
		t.Gxid = []int64{-0x7654321, 0x123456789}[i]
		ids[i], groups[i] = t.Txid, t.Gxid
		reqs[i] = &http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{}}
	}
	work := func(i int) {
		strace.EndApiCall(ctxs[i], strace.StartApiCallWithPropagation(ctxs[i], reqs[i], "call", "addr"), nil)
	}
	t := vrt.Spawn(func() { work(0) })
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	work(1)
	vrt.Join(t)
	vrt.NoExplore()
	strace.EndService(ctxs[0])
	strace.EndService(ctxs[1])
	got := collect()
	for i := range ids {
		h := reqs[i].Header
		vrt.Assert(base32(one(h, "X-Scouter-Gxid")) == groups[i] && base32(one(h, "X-Scouter-Caller")) == ids[i] && one(h, "X-Scouter-Caller-Obj") == "77", "two calls at the same time disturb each other's headers")
		k := 0
		for _, st := range got.Steps(ids[i]) {
			if st.Type == 6 {
				k++
				vrt.Assert(st.Txid == base32(one(h, "X-Scouter-Callee")), "the callee in the header is not that of the step")
			}
		}
		vrt.Assert(k == 1, "the step of the call is not delivered exactly once")
	}
}

// H_Go: goroutines and their children.
func H_Go() {
	d := 2
	if vrt.Thorough() {
		d = 3
	}
	vrt.Bound("trees of goroutines of depth 2 (3 in thorough) with 1 or 2 children each; root in its own or another's group, or not yet grouped")
	c := setup()
	c.ObjHash = 9
	ctx := strace.StartService(context.Background(), "/a", "10.20.30.40:99")
	root := tctxmanager.GetTraceContext(ctx)
	gxid := root.Txid
	switch vrt.Choose("group", 3) {
	case 0:
		gxid = anID("gxid")
		root.Gxid = gxid
	case 1:
		root.Gxid = 0
	}
	type node struct {
		t, parent *netio.TraceContext
		name      string
		start     int32
		txid      int64
	}
	var nodes []*node
	names := []string{"/k0", "/k1", "/k2", "/k3", "/k4", "/k5", "/k6", "/k7", "/k8", "/k9", "/ka", "/kb", "/kc", "/kd", "/ke", "/kf"}
	start := map[*netio.TraceContext]int64{root: vrt.NowNS()}
	var grow func(ctx context.Context, depth int)
	grow = func(ctx context.Context, depth int) {
		if depth == 0 {
			return
		}
		parent := tctxmanager.GetTraceContext(ctx)
		k := 1 + vrt.Choose("children", 2)
		for i := 0; i < k; i++ {
			vrt.Advance(7)
			n := &node{parent: parent, name: names[len(nodes)], start: int32((vrt.NowNS() - start[parent]) / 1000000)}
			nodes = append(nodes, n)
			strace.GoWithTrace(ctx, n.name, func(ctx context.Context) {
				n.t = tctxmanager.GetTraceContext(ctx)
				n.txid = n.t.Txid
				start[n.t] = vrt.NowNS()
				grow(ctx, depth-1)
			})
		}
	}
	grow(ctx, d)
	vrt.RunFor(1)
	strace.EndService(ctx)
	got := collect()
	r := got.Xlog(root.Txid)
	vrt.Assert(r.Gxid == gxid && r.Caller == 0, "the root is not in its group")
	for _, n := range nodes {
		x := got.Xlog(n.txid)
		vrt.Assert(x.Gxid == gxid, "a goroutine is not in the group of its parent")
		vrt.Assert(x.Caller == n.parent.Txid, "the caller of a goroutine is not its parent")
		vrt.Assert(x.XType == 4, "the type of a goroutine's service is wrong")
		vrt.Assert(got.Text("service", x.Service) == n.name, "the name of a goroutine's service is wrong")
		vrt.Assert(x.Ipaddr == "\x0a\x14\x1e\x28", "the remote address of a goroutine is not that of its parent")
		k := 0
		for _, s := range got.Steps(n.parent.Txid) {
			if s.Type == 14 && s.Txid == n.txid {
				k++
				vrt.Assert(got.Text("apicall", s.Hash) == n.name, "the step of a goroutine has another name")
				vrt.Assert(s.Start == n.start, "the step of a goroutine has another start time")
			}
		}
		vrt.Assert(k == 1, "the parent has not exactly one step for a goroutine")
	}
	for i, n := range nodes {
		for _, m := range nodes[:i] {
			vrt.Assert(n.txid != m.txid, "two goroutines share a transaction id")
		}
	}
}

// H_Inherit: a service that continues another one.
func H_Inherit() {
	vrt.Bound("all values of one inherited field at a time, the others distinct constants; the child ended before or after its parent")
	c := setup()
	c.ObjHash = 9
	ctx := strace.StartService(context.Background(), "/a", "10.20.30.40:99")
	p := tctxmanager.GetTraceContext(ctx)
	txid := p.Txid
	p.Gxid = 500
	p.XType, p.Error, p.SqlCount, p.SqlTime, p.ApicallCount, p.ApicallTime = netdata.XTYPE_BACK_THREAD, 11, 12, 13, 14, 15
	p.Userid, p.UserAgent, p.Referer, p.Login, p.Desc = 16, 17, 18, "lo", "de"
	p.Text1, p.Text2, p.Text3, p.Text4, p.Text5 = "1", "2", "3", "4", "5"
	switch vrt.Choose("field", 8) {
	case 0:
		p.Gxid = anID("gxid")
	case 1:
		p.Error = vrt.I32("v")
	case 2:
		p.SqlCount = vrt.I32("v")
	case 3:
		p.ApicallTime = vrt.I32("v")
	case 4:
		p.Userid = vrt.I64("v")
	case 5:
		p.Referer = vrt.I32("v")
	case 6:
		p.Text4 = vrt.StringUpTo("v", 3)
	case 7:
		p.XType = netdata.XlogType(vrt.U8("v"))
	}
	want := *p
	first := vrt.Choose("order", 2) == 1
	if first {
		strace.EndService(ctx)
	}
	nctx, n := strace.StartNewInheritanceService(context.Background(), p)
	vrt.Assert(tctxmanager.GetTraceContext(nctx) == n && n.Txid != txid, "the new service has no context of its own")
	vrt.Assert(n.Inherit && n.IsChildTx && n.CallerObjHash == 9 && n.IsStream == want.IsStream, "the new service is not marked as inherited")
	strace.EndService(nctx)
	if !first {
		strace.EndService(ctx)
	}
	got := collect()
	got.Xlog(txid)
	x := got.Xlog(n.Txid)
	vrt.Assert(x.Gxid == want.Gxid, "the new service is not in the group of its parent")
	vrt.Assert(x.Caller == txid, "the caller of the new service is not its parent")
	vrt.Assert(x.XType == byte(want.XType), "the type is not inherited")
	vrt.Assert(x.Error == want.Error, "the error is not inherited")
	vrt.Assert(vrt.And(x.SqlCount == want.SqlCount, x.SqlTime == want.SqlTime), "the sql counts are not inherited")
	vrt.Assert(vrt.And(x.ApicallCount == want.ApicallCount, x.ApicallTime == want.ApicallTime), "the api call counts are not inherited")
	vrt.Assert(x.Userid == want.Userid, "the user is not inherited")
	vrt.Assert(vrt.And(x.UserAgent == want.UserAgent, x.Referer == want.Referer), "the user agent or referer is not inherited")
	vrt.Assert(got.Text("login", x.Login) == "lo" && got.Text("desc", x.Desc) == "de", "login or description are not inherited")
	vrt.Assert(x.Text1 == want.Text1 && x.Text2 == want.Text2 && x.Text3 == want.Text3 && x.Text4 == want.Text4 && x.Text5 == want.Text5, "the texts are not inherited")
	vrt.Assert(got.Text("service", x.Service) == "/a" && x.Ipaddr == "\x0a\x14\x1e\x28", "name or address are not inherited")
}

// H_Chain: chains of services linked in different ways, with calls to others in each.
func H_Chain() {
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	vrt.Bound("chains of 3 (4) services, each a goroutine's or inherited from the one before, a call with propagation (and a second one with the same request) in one of them; the first in its own or another's group, or not yet grouped; the call's name of one arbitrary byte")
	setup().ObjHash = -77
	ctx := strace.StartService(context.Background(), "/a", "10.20.30.40:99")
	root := tctxmanager.GetTraceContext(ctx)
	gxid := root.Txid
	switch vrt.Choose("group", 3) {
	case 0:
		gxid = anID("gxid")
		root.Gxid = gxid
	case 1:
		root.Gxid = 0
		gxid = 0 // its own as soon as another service or a call belongs to it
	}
	call := "c" + vrt.String("call", 1)
	at := vrt.Choose("at", n+1)
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{}}
	var ts []*netio.TraceContext
	var chain func(ctx context.Context, i int)
	chain = func(ctx context.Context, i int) {
		t := tctxmanager.GetTraceContext(ctx)
		ts = append(ts, t)
		for k := 0; k < 2 && i == at; k++ {
			s := strace.StartApiCallWithPropagation(ctx, req, call, "")
			last := func(key string) string {
				v := req.Header[key]
				vrt.Assert(len(v) > 0, "a header of the call is missing")
				return v[len(v)-1]
			}
			want := gxid
			if want == 0 {
				want = root.Txid
			}
			vrt.Assert(base32(last("X-Scouter-Gxid")) == want, "the group in the header is not that of the transaction")
			vrt.Assert(base32(last("X-Scouter-Caller")) == t.Txid, "the caller in the header is not the transaction")
			vrt.Assert(base32(last("X-Scouter-Callee")) == s.Txid, "the callee in the header is not that of the step")
			vrt.Assert(decimal(last("X-Scouter-Caller-Obj")) == -77, "the caller object in the header is not this agent")
			vrt.Assert(len(req.Header) == 4, "the headers of the call are changed")
			strace.EndApiCall(ctx, s, nil)
		}
		if i == n {
			return
		}
		vrt.Advance(3)
		if t.Gxid != 0 && vrt.Choose("inherit", 2) == 1 {
			next, _ := strace.StartNewInheritanceService(context.Background(), t)
			chain(next, i+1)
			strace.EndService(next)
		} else {
			strace.GoWithTrace(ctx, "/go", func(ctx context.Context) { chain(ctx, i+1) })
			vrt.RunFor(1)
		}
	}
	chain(ctx, 0)
	strace.EndService(ctx)
	if gxid == 0 {
		gxid = root.Txid
	}
	got := collect()
	for i, t := range ts {
		x := got.Xlog(t.Txid)
		vrt.Assert(x.Gxid == gxid, "a service is not in the group of the one it belongs to")
		if i == 0 {
			vrt.Assert(x.Caller == 0, "the first service has a caller")
		} else {
			vrt.Assert(x.Caller == ts[i-1].Txid, "the caller of a service is not the one it belongs to")
		}
		for _, u := range ts[:i] {
			vrt.Assert(t.Txid != u.Txid, "two services share a transaction id")
		}
		k := 0
		for _, st := range got.Steps(t.Txid) {
			if st.Type == 6 && got.Text("apicall", st.Hash) == call {
				k++
			}
		}
		vrt.Assert((k == 2) == (i == at), "the steps of the calls are not delivered once each")
	}
	vrt.Assert(len(ts) == n+1, "a service of the chain did not run")
}
