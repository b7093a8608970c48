// Package c20: the collector's TCP session.
package c20

import (
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/pprof"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var broken = errors.New("broken pipe")
var panics int

func setup(lines ...string) *hcommon.Server {
	vrt.SetLimit(30000000)
	panics = 0
	common.RegisterSendPanicF(func(m string) { panics++ })
	os.Setenv("SCOUTER_AGENT_HOME", "/r")
	hconf.Set(lines...)
	s := hcommon.NewServer()
	strace.StartTracingMode()
	return s
}

var blobs = []string{"OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP"}
var silent = []string{"KEEP_ALIVE", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE", "", "NO_SUCH_COMMAND", "keep_alive"}
var maps = []string{
	"TRIGGER_THREAD_DUMP", "OBJECT_DUMP_FILE_LIST", "OBJECT_LIST_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP",
	"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE",
	"GET_CONFIGURE_WAS", "SET_CONFIGURE_WAS", "LIST_CONFIGURE_WAS", "CONFIGURE_VALUE_TYPE", "CONFIGURE_DESC",
	"OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_THREAD_DETAIL",
}

// answer reads the answer to one request.
func answer(d *hcommon.Dec, cmd string, mapParam bool) {
	isBlob, isMap := false, false
	for _, c := range blobs {
		isBlob = isBlob || c == cmd
	}
	for _, c := range maps {
		isMap = isMap || c == cmd
	}
	n := 0
	for {
		f := d.U8()
		if f == 4 {
			break
		}
		vrt.Assert(f == 3, "an answer is not framed by the flags")
		n++
		if isBlob {
			d.Blob()
			continue
		}
		e := hcommon.Dec{B: d.Take(int(d.I32()))}
		if isMap {
			e.Map()
			vrt.Assert(e.Left() == 0, "an answer's length is not that of its pack")
		}
	}
	switch {
	case isBlob:
	case isMap && !mapParam && cmd == "OBJECT_DELETE_HEAP_DUMP":
	case isMap:
		vrt.Assert(n == 1, "a command is not answered with one pack")
	case cmd == "OBJECT_RESET_CACHE":
		vrt.Assert(n == 1, "a command is not answered with one pack")
	default:
		vrt.Assert(n == 0, "a command without an answer is answered with a pack")
	}
}

// param are parameter packs of every kind.
func param(e *hcommon.Enc, k int) {
	keys := []string{"name", "fileName", "delfileName", "setConfig", "txid"}
	switch k {
	case 0:
		e.MapPack()
	case 1:
		var ps []hcommon.Param
		for _, k := range keys {
			ps = append(ps, hcommon.Param{Key: k, Text: "x=1"})
		}
		e.MapPack(ps...)
	case 2:
		var ps []hcommon.Param
		for _, k := range keys {
			ps = append(ps, hcommon.Param{Key: k, Num: 77})
		}
		e.MapPack(ps...)
	case 3: // nulls
		e.U8(10).U8(1).U8(byte(len(keys)))
		for _, k := range keys {
			e.Text(k).U8(0)
		}
	case 4: // lists of an empty text
		e.U8(10).U8(1).U8(byte(len(keys)))
		for _, k := range keys {
			e.Text(k).U8(70).U8(1).U8(1).U8(50).U8(0)
		}
	case 5: // a counter pack
		e.U8(60).I64(5).Text("o").U8(1).U8(80).U8(0)
	}
}

func request(cmd string, k int) []byte {
	e := &hcommon.Enc{}
	e.Text(cmd)
	param(e, k)
	return append((&hcommon.Enc{}).I32(int32(len(e.B))).B, e.B...)
}

// H_Requests: every command is answered.
func H_Requests() {
	vrt.Bound("each of the 17 commands with an answer and 6 others, with each of 6 kinds of parameters, followed by two further commands, sent together or one by one, and read whole or in parts of 1 or 5 bytes; with and without tracing of the agent itself (_trace)")
	p := vrt.Choose("param", 6)
	s := setup("_trace=" + []string{"false", "true"}[p&1])
	k := vrt.Choose("parts", 3)
	s.Chunk = []int{0, 1, 5}[k]
	s.Hello()
	all := append(append(append([]string{"OBJECT_RESET_CACHE"}, blobs...), silent...), maps...)
	cmd := all[vrt.Choose("cmd", len(all))]
	next := []string{"OBJECT_RESET_CACHE", "OBJECT_THREAD_DETAIL"}[vrt.Choose("next", 2)]
	var out []byte
	if vrt.Choose("together", 2) == 1 {
		b := append(append(request(cmd, p), request(next, 1)...), request("KEEP_ALIVE", 0)...)
		out = s.Raw(b)
	} else {
		out = append(append([]byte{}, s.Raw(request(cmd, p))...), s.Raw(request(next, 1))...)
		out = append(out, s.Raw(request("KEEP_ALIVE", 0))...)
	}
	d := &hcommon.Dec{B: out}
	answer(d, cmd, p != 5)
	if next == "OBJECT_RESET_CACHE" {
		vrt.Assert(d.U8() == 3, "a command is not answered")
		e := hcommon.Dec{B: d.Take(int(d.I32()))}
		v := e.Map()
		vrt.Assert(len(v.Keys) == 5 && v.Get("name") != nil && v.Get("name").S == "x=1", "an answer is not that of its command")
	} else {
		vrt.Assert(d.U8() == 3, "a command is not answered")
		e := hcommon.Dec{B: d.Take(int(d.I32()))}
		v := e.Map()
		vrt.Assert(v.Get("Stack Trace") != nil, "an answer is not that of its command")
	}
	vrt.Assert(d.U8() == 4, "an answer has no end")
	vrt.Assert(d.U8() == 4, "KEEP_ALIVE is not answered by the end flag alone")
	vrt.Assert(d.Left() == 0, "more is sent than the answers")
	vrt.Assert(len(s.Conns) == 1 && !s.Conn.Closed, "the session ends though the requests are in order")
	vrt.Assert(panics == 0, "a request makes the agent panic")
}

// alive has the agent answer a request, in this session or in the next.
func alive(s *hcommon.Server) {
	if s.Conn.Closed || !s.Greeted {
		s.Hello()
	}
	v := s.Call("OBJECT_THREAD_DETAIL", hcommon.Param{Key: "txid", Num: 5})
	vrt.Assert(v != nil && v.Get("Stack Trace") != nil, "the agent does not answer any more")
	for i, c := range s.Conns {
		vrt.Assert(c.Closed == (i != len(s.Conns)-1), "a session that ended is not closed")
	}
	vrt.Assert(panics == 0, "a request makes the agent panic")
}

// H_Malformed: requests that cannot be decoded end the session.
func H_Malformed() {
	vrt.Bound("13 malformed requests: wrong lengths, truncated commands and packs, unknown kinds of packs")
	s := setup()
	s.Hello()
	long := make([]byte, 300)
	bad := [][]byte{
		{},
		{5, 'a'},
		{255, 1},
		{255, 0, 9, 'a'},
		{254, 255, 255, 255, 255, 10, 0},
		{254, 127, 255, 255, 255, 10, 0},
		{1, 'a'},
		{1, 'a', 10},
		{1, 'a', 10, 1, 2, 1, 'k', 50, 1, 'v'},
		{1, 'a', 200, 0},
		{1, 'a', 0},
		{1, 'a', 10, 1, 1, 1, 'k', 99},
		{1, 'a', 10, 1, 1, 1, 'k', 50, 254, 255, 255, 255, 255},
	}
	k := vrt.Choose("request", len(bad)+3)
	var b []byte
	switch k - len(bad) {
	case 0:
		b = append((&hcommon.Enc{}).I32(-1).B, long...)
	case 1:
		b = append((&hcommon.Enc{}).I32(-2147483648).B, long...)
	case 2: // more is announced than comes
		b = append((&hcommon.Enc{}).I32(2147483647).B, long...)
		s.Hangup = true
	default:
		b = append((&hcommon.Enc{}).I32(int32(len(bad[k]))).B, bad[k]...)
	}
	out := s.Raw(b)
	s.Hangup = false
	vrt.Assert(len(out) == 0, "a request that cannot be decoded is answered")
	vrt.Assert(s.Conns[0].Closed, "a request that cannot be decoded does not end the session")
	alive(s)
	vrt.Assert(len(s.Conns) == 2, "there is more than one new session")
}

// H_Bytes: arbitrary requests.
func H_Bytes() {
	vrt.Bound("a request of up to 6 (7 in thorough) arbitrary bytes, alone or behind a valid command")
	s := setup()
	s.Hello()
	n := 6
	if vrt.Thorough() {
		n = 7
	}
	body := []byte{}
	if vrt.Choose("command", 2) == 1 {
		body = append(body, "\x12OBJECT_RESET_CACHE"...)
	}
	body = append(body, vrt.BytesUpTo("b", n)...)
	out := s.Raw(append((&hcommon.Enc{}).I32(int32(len(body))).B, body...))
	if len(out) > 0 {
		d := &hcommon.Dec{B: out}
		if f := d.U8(); f == 3 {
			d.Take(int(d.I32()))
			vrt.Assert(d.U8() == 4, "an answer has no end")
		} else {
			vrt.Assert(f == 4, "an answer is not framed by the flags")
		}
		vrt.Assert(d.Left() == 0, "more is sent than the answer")
		vrt.Cover("answered")
		vrt.Assert(!s.Conns[0].Closed, "a session ends though its request was answered")
	} else {
		vrt.Cover("ended")
		vrt.Assert(s.Conns[0].Closed, "a request is neither answered nor does it end the session")
	}
	alive(s)
}

// H_Truncated: the connection ends within a request.
func H_Truncated() {
	vrt.Bound("every cut of two requests of 34 bytes in all")
	s := setup()
	s.Hello()
	b := append(request("A", 0), hcommon.Request("OBJECT_X", hcommon.Param{Key: "k", Text: "v"})...)
	cut := vrt.Choose("cut", len(b)+1)
	s.Hangup = true
	out := s.Raw(b[:cut])
	s.Hangup = false
	want := 0
	if cut >= len(request("A", 0)) {
		want++
	}
	if cut == len(b) {
		want++
	}
	vrt.Assert(len(out) == want, "the requests before the end of the connection are not answered once")
	for _, x := range out {
		vrt.Assert(x == 4, "a command without an answer is answered with a pack")
	}
	vrt.Assert(s.Conns[0].Closed, "a connection that ended is not closed")
	alive(s)
	vrt.Assert(len(s.Conns) == 2, "there is more than one new session")
}

// H_Faults: writes that fail.
func H_Faults() {
	vrt.Bound("any one of the first six writes of a session failing, or setting its deadline")
	s := setup()
	k := vrt.Choose("write", 7)
	n := 0
	first := true
	s.Accepted = func(c *net.TCPConn) {
		if !first {
			return
		}
		first = false
		c.WriteFault = func(int) error {
			n++
			if k > 0 && n >= k {
				return broken
			}
			return nil
		}
		if k == 0 {
			c.DLFault = func() error { return broken }
		}
	}
	for i := 0; i < 8 && (len(s.Conns) == 0 || !s.Conns[0].Closed); i++ {
		vrt.RunFor(1500)
		if len(s.Conns) == 1 && !s.Conns[0].Closed {
			s.Send(request("KEEP_ALIVE", 0))
		}
	}
	vrt.RunFor(1000)
	if n >= k {
		vrt.Cover("failed")
		vrt.Assert(s.Conns[0].Closed, "a session whose connection is broken is not closed")
	}
	alive(s)
}

// H_Idle: sessions time out only when they are idle.
func H_Idle() {
	vrt.Bound("read timeouts of 2, 5 and 60 s; requests spaced at 90% of it, or none, four times")
	k := vrt.Choose("timeout", 3)
	ms := []int{2000, 5000, 60000}[k]
	s := setup("net_collector_tcp_so_timeout_ms=" + []string{"2000", "5000", "60000"}[k])
	s.Hello()
	for i := 0; i < 4; i++ {
		vrt.RunFor(int64(ms) * 9 / 10)
		vrt.Assert(!s.Conn.Closed, "a session ends before its read timeout")
		s.Call("KEEP_ALIVE")
	}
	c := s.Conn
	vrt.RunFor(int64(ms) - 500)
	vrt.Assert(!c.Closed, "a session ends before its read timeout")
	vrt.RunFor(1000)
	vrt.Assert(c.Closed, "an idle session does not end after its read timeout")
	vrt.RunFor(5000)
	vrt.Assert(len(s.Conns) == 2, "no new session follows the one that timed out")
	alive(s)
}

// H_Change: the session follows the configuration.
func H_Change() {
	vrt.Bound("a change of the collector's address, port, the object's name or something else, while the connection is made, before the first request, between requests, or while a request waits")
	s := setup("net_collector_ip=10.0.0.1", "net_collector_tcp_port=6100", "obj_name=one")
	lines := []string{"net_collector_ip=10.0.0.1", "net_collector_tcp_port=6100", "obj_name=one", "udp_max_bytes=500"}
	which := vrt.Choose("what", 4)
	lines[which] = []string{"net_collector_ip=10.0.0.2", "net_collector_tcp_port=6200", "obj_name=two", "udp_max_bytes=600"}[which]
	when := vrt.Choose("when", 3)
	changed := false
	change := func() {
		if !changed {
			changed = true
			hconf.Set(lines...)
		}
	}
	if when == 0 {
		s.Dialed = change
	}
	h := int32(0)
	if when == 0 && which < 3 {
		for i := 0; i < 40 && (len(s.Conns) == 0 || len(s.Conns[0].Out) < 8 || !s.Conns[0].Closed); i++ {
			vrt.RunFor(100)
		}
		h = hcommon.HelloOf(s.Conns[0])
	} else {
		h = s.Hello()
	}
	vrt.Assert(net.DialAddrs[0] == "10.0.0.1:6100", "the session is not with the collector")
	first := s.Conns[0]
	switch when {
	case 1:
		change()
	case 2:
		s.Call("KEEP_ALIVE")
		change()
	}
	if which < 3 {
		// one more request may be answered
		if !first.Closed {
			s.Raw(request("KEEP_ALIVE", 0))
		}
		vrt.RunFor(5000)
		vrt.Assert(first.Closed, "the session goes on after its collector or object has changed")
		vrt.Assert(len(s.Conns) == 2, "there is no new session for the new collector or object")
		h2 := s.Hello()
		vrt.Assert((h2 != h) == (which == 2), "the session is not for the object")
		want := []string{"10.0.0.2:6100", "10.0.0.1:6200", "10.0.0.1:6100", ""}[which]
		vrt.Assert(net.DialAddrs[1] == want, "the new session is not with the collector of the configuration")
	}
	alive(s)
	alive(s)
	n := 1
	if which < 3 {
		n = 2
	}
	vrt.Assert(len(s.Conns) == n, "a session does not last")
}

// H_Hello: the session is opened for the object.
func H_Hello() {
	vrt.Bound("every object name of up to 3 characters of the alphabet a-c; the first session and one after it")
	name := vrt.StringOver("name", 1+vrt.Choose("len", 3), "abc")
	s := setup("obj_name=" + name)
	h := s.Hello()
	want := hcommon.Crc("/host/" + name)
	vrt.Assert(h == want, "the session is not opened with the hash of the object's name")
	s.Hangup = true
	vrt.RunFor(1000)
	s.Hangup = false
	vrt.RunFor(6000)
	vrt.Assert(s.Hello() == want, "the session is not opened with the hash of the object's name")
}

// H_Panic: a command whose execution panics.
func H_Panic() {
	vrt.Bound("a panic at the first, second or third file operation, or in the run-time, of each of six commands")
	s := setup()
	s.Hello()
	cmds := []string{"TRIGGER_THREAD_DUMP", "OBJECT_DUMP_FILE_LIST", "OBJECT_DUMP_FILE_DETAIL", "GET_CONFIGURE_WAS", "SET_CONFIGURE_WAS", "OBJECT_DOWNLOAD_HEAP_DUMP"}
	cmd := cmds[vrt.Choose("cmd", len(cmds))]
	os.Put("/r/dump/x", []byte("xxx"))
	os.Put("/r/binary_dump/x", []byte("xxx"))
	k, n := vrt.Choose("op", 4), 0
	on := true
	if k == 3 {
		pprof.Dump = func(string) []byte {
			n = k + 1
			panic("run-time")
		}
	} else {
		os.Fault = func(op, p string) error {
			if on && vrt.CurID() != 1 {
				if n++; n == k+1 {
					on = false
					panic("file system")
				}
			}
			return nil
		}
	}
	out := s.Raw(hcommon.Request(cmd, hcommon.Param{Key: "name", Text: "x"}, hcommon.Param{Key: "fileName", Text: "x"}, hcommon.Param{Key: "setConfig", Text: "a=1"}))
	on = false
	vrt.Assert(len(out) > 0 && out[len(out)-1] == 4, "a command that panics leaves the collector without an answer")
	vrt.Assert(!s.Conn.Closed && len(s.Conns) == 1, "a command that panics ends the session")
	if n > k {
		vrt.Cover("panic")
		vrt.Assert(panics > 0, "a panic in the agent is not reported")
	}
	panics = 0
	alive(s)
}
