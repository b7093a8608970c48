// Package c28: nothing the agent did for one occasion remains afterwards.
package c28

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var denied = errors.New("denied")
var goroutines, files, sockets int

func setup(lines ...string) *hcommon.Server {
	vrt.SetLimit(30000000)
	common.RegisterSendPanicF(func(m string) {})
	os.Setenv("SCOUTER_AGENT_HOME", "/r")
	strace.StartTracingMode()
	hconf.Set(lines...)
	s := hcommon.NewServer()
	s.Hello()
	udpsender.GetInstance()
	vrt.RunFor(7100)
	goroutines, files, sockets = vrt.NumThreads(), os.Open_, net.UDPOpen
	vrt.Assert(sockets == 1, "the agent does not have one socket to the collector")
	return s
}

// nothing checks that nothing remained.
func nothing() {
	vrt.Assert(vrt.NumThreads() == goroutines, "a goroutine remains")
	vrt.Assert(os.Open_ == files, "a file remains open")
	vrt.Assert(net.UDPOpen == sockets, "a socket remains open")
	vrt.Assert(len(tctxmanager.GetAllTctx()) == 0, "an ended service remains active")
}

// H_Services: services of every kind.
func H_Services() {
	vrt.Bound("1 to 3 services one after the other or inside one another, of each way to start one, ending normally, by a panic of the host or with methods and api calls that were never ended, after 0, 2 or 21 s; 0, 1, 2, 5 or 7 profile steps of 2 configured to be kept and 4 to be sent; any message and api name of one byte")
	setup("profile_step_max_count=4", "profile_step_max_keep_in_memory_count=2")
	n := 1 + vrt.Choose("n", 3)
	took := []int64{0, 1999, 21000}[vrt.Choose("took", 3)]
	steps := []int{0, 1, 2, 5, 7}[vrt.Choose("steps", 5)]
	text := vrt.String("text", 1)
	panics := vrt.Choose("panics", 2) == 1
	nested := vrt.Choose("nested", 2) == 1
	var run func(ctx context.Context, k int)
	body := func(ctx context.Context, k int) {
		for i := 0; i < steps; i++ {
			strace.AddMessageStep(ctx, text)
		}
		strace.StartMethod(ctx)
		strace.StartApiCall(ctx, text, "there")
		if nested && k < n {
			run(ctx, k+1)
		}
		if k == 1 {
			vrt.Sleep(took * 1000000)
		}
		if panics {
			panic("host")
		}
	}
	kind := vrt.Choose("kind", 4)
	run = func(ctx context.Context, k int) {
		defer func() { recover() }()
		switch kind {
		case 0:
			q := &http.Request{Method: "GET", URL: &url.URL{Path: "/p"}, Header: http.Header{}, RemoteAddr: "10.0.0.1:1"}
			c := strace.StartHttpService(ctx, q)
			defer strace.EndHttpService(c, q, nil)
			body(c, k)
		case 1:
			c := strace.StartService(ctx, "s", "10.0.0.1:1")
			defer strace.EndService(c)
			body(c, k)
		case 2:
			var c context.Context
			if t := tctxmanager.GetTraceContext(ctx); t != nil {
				c, _ = strace.StartNewInheritanceService(context.Background(), t)
			} else {
				c = strace.StartService(ctx, "s", "10.0.0.1:1")
			}
			defer strace.EndService(c)
			body(c, k)
		case 3:
			c := strace.StartService(ctx, "s", "10.0.0.1:1")
			defer strace.EndService(c)
			strace.GoWithTrace(c, "g", func(c context.Context) {
				defer func() { recover() }()
				body(c, k)
			})
		}
	}
	if nested {
		run(context.Background(), 1)
	} else {
		for k := 1; k <= n; k++ {
			run(context.Background(), k)
		}
	}
	vrt.RunFor(30000)
	nothing()
}

var commands = []string{"KEEP_ALIVE", "OBJECT_RESET_CACHE", "TRIGGER_THREAD_DUMP", "OBJECT_DUMP_FILE_LIST", "OBJECT_DUMP_FILE_DETAIL",
	"TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE", "OBJECT_LIST_HEAP_DUMP", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP",
	"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "GET_CONFIGURE_WAS", "SET_CONFIGURE_WAS",
	"LIST_CONFIGURE_WAS", "CONFIGURE_VALUE_TYPE", "CONFIGURE_DESC", "OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_THREAD_DETAIL", "UNKNOWN"}

// request is command k with its parameters: a dump of the name, the texts of the kind.
func request(k int, name string) []byte {
	switch commands[k] {
	case "OBJECT_DUMP_FILE_DETAIL":
		return hcommon.Request(commands[k], hcommon.Param{Key: "name", Text: name})
	case "OBJECT_DOWNLOAD_HEAP_DUMP":
		return hcommon.Request(commands[k], hcommon.Param{Key: "fileName", Text: name})
	case "OBJECT_DELETE_HEAP_DUMP":
		return hcommon.Request(commands[k], hcommon.Param{Key: "delfileName", Text: name})
	case "SET_CONFIGURE_WAS":
		return hcommon.Request(commands[k], hcommon.Param{Key: "setConfig", Text: "obj_type=golang\n"})
	case "OBJECT_THREAD_DETAIL":
		return hcommon.Request(commands[k], hcommon.Param{Key: "id", Num: 1}, hcommon.Param{Key: "txid", Num: 0})
	}
	return hcommon.Request(commands[k])
}

// H_Commands: the collector's commands, also when the files fail.
func H_Commands() {
	vrt.Bound("each of the collector's commands, once or twice in a row, with a dump that is there, absent or a folder; any one of the first 6 file operations failing, or all of one kind")
	s := setup()
	os.Put("/r/dump/d", []byte("text"))
	os.Put("/r/binary_dump/d", make([]byte, 300))
	os.PutDir("/r/dump/sub")
	os.PutDir("/r/binary_dump/sub")
	k := vrt.Choose("command", len(commands))
	name := "d"
	if k == 4 || k == 8 || k == 9 {
		name = []string{"d", "absent", "sub"}[vrt.Choose("name", 3)]
	}
	fault := vrt.Choose("fault", 11)
	seen := 0
	os.Fault = func(op, path string) error {
		seen++
		switch {
		case fault < 6:
			if seen-1 == fault {
				return denied
			}
		case fault < 10 && op == []string{"read", "write", "stat", "readdir"}[fault-6]:
			return denied
		}
		return nil
	}
	v := s.Raw(request(k, name))
	if vrt.Choose("again", 2) == 1 && !s.Conn.Closed {
		v = s.Raw(request(k, name))
	}
	vrt.Assert(s.Conn.Closed || len(v) > 0, "a command is not answered")
	os.Fault = nil
	vrt.RunFor(40000)
	nothing()
}

// H_Sessions: sessions with the collector that end in every way.
func H_Sessions() {
	vrt.Bound("1 to 4 (thorough: 6) sessions, each ending when the collector hangs up, in the middle of a request of any length, by a time-out, by a failing write or deadline, by a bad request, or by a change of the collector's address or the object's name; answers in chunks")
	vrt.SetLimit(30000000)
	common.RegisterSendPanicF(func(m string) {})
	strace.StartTracingMode()
	lines := []string{"net_collector_tcp_so_timeout_ms=5000", "net_collector_ip=10.0.0.1", "obj_name=a"}
	hconf.Set(lines...)
	n := 1 + vrt.Choose("n", pick(4, 6))
	how := vrt.Choose("how", 9)
	part := int(vrt.Range("part", 0, 30))
	var conns []*net.TCPConn
	last := false
	net.TCPDialer = func(a string) *net.TCPConn {
		c := &net.TCPConn{}
		conns = append(conns, c)
		if len(conns) > n {
			c.AtEnd = func(*net.TCPConn) error {
				last = true
				for {
					vrt.Sleep(1000000000000)
				}
			}
			return c
		}
		q := hcommon.Request("LIST_CONFIGURE_WAS")
		switch how {
		case 1:
			if part > len(q) {
				part = len(q)
			}
			c.In = q[:vrt.Conc(part)]
		case 2:
			c.In = append(q, 0)
			c.AtEnd = func(*net.TCPConn) error {
				vrt.Sleep(c.ReadDL - vrt.NowNS())
				return net.ErrTimeout
			}
		case 3:
			c.WriteFault = func(n int) error {
				if len(c.Out) >= part {
					return io.ErrClosedPipe
				}
				return nil
			}
			c.In = q
		case 4:
			c.DLFault = func() error { return io.ErrClosedPipe }
		case 5:
			c.In = []byte{0, 0, 0, 2, 1, 'x'}
		case 6:
			c.In = []byte{255, 255, 255, 255, 1, 'x'}
		case 7, 8:
			lines[how-6] += "1"
			c.AtEnd = func(*net.TCPConn) error {
				vrt.Sleep(1000000000)
				hconf.Set(lines...)
				c.In = append(c.In, q...)
				return nil
			}
		}
		return c
	}
	for i := 0; i < 100 && !last; i++ {
		vrt.RunFor(5000)
		if i == 0 {
			goroutines = vrt.NumThreads()
		}
	}
	vrt.Assert(last, "the agent does not come back to the collector")
	for _, c := range conns[:len(conns)-1] {
		vrt.Assert(c.Closed, "the connection of an ended session remains open")
	}
	vrt.Assert(vrt.NumThreads() == goroutines, "a goroutine remains")
	vrt.Assert(!conns[len(conns)-1].Closed, "the connection of the session is closed")
}

// H_Collector: the address of the collector changes.
func H_Collector() {
	vrt.Bound("1 to 4 (thorough: 6) changes of the collector's address, port or size limit, with any row of the first 7 attempts to open a socket failing, with packs queued and sent directly meanwhile and any one of the first 4 of their datagrams failing")
	s := setup()
	u := udpsender.GetInstance()
	n := 1 + vrt.Choose("n", pick(4, 6))
	from := vrt.Range("from", 0, 7)
	to := vrt.Range("to", 0, 7)
	dials := 0
	net.UDPDialFault = func(a string) error {
		dials++
		if dials > from && dials <= to {
			return denied
		}
		return nil
	}
	writes, lost := 0, vrt.Range("lost", 0, 4)
	net.UDPWriteFault = func(b []byte) error {
		writes++
		if writes == lost {
			return denied
		}
		return nil
	}
	what := vrt.Choose("what", 3)
	for i := 0; i < n; i++ {
		x := string(rune('1' + i))
		hconf.Set([]string{"net_collector_ip=10.0.0." + x, "net_collector_udp_port=700" + x, "udp_max_bytes=100" + x}[what])
		u.AddBuffer([]byte{1})
		u.SendPackDirect(&netdata.TextPack{Xtype: "t", Hash: 1, Text: "x"})
		vrt.RunFor(2500)
		vrt.Assert(net.UDPOpen <= 1, "the socket to the old collector remains open")
	}
	vrt.RunFor(20000)
	nothing()
	s.Call("KEEP_ALIVE")
	nothing()
}

// H_Reload: the configuration is read again and again.
func H_Reload() {
	vrt.Bound("1 to 3 changes of the configuration file, each being any text of up to 1 byte (thorough: 2), unreadable, a folder or absent, 60 s of looking for changes")
	setup()
	n := 1 + vrt.Choose("n", 3)
	how := vrt.Choose("how", 4)
	f := hconf.Path
	for i := 0; i < n; i++ {
		text := vrt.BytesUpTo("text", pick(1, 2))
		switch how {
		case 0:
			os.Put(f, text)
		case 1:
			os.Put(f, text)
			os.Fault = func(op, path string) error {
				if path == f {
					return denied
				}
				return nil
			}
		case 2:
			os.Remove(f)
		case 3:
			os.Put(f, text)
			os.Fault = func(op, path string) error {
				if op == "read" {
					return denied
				}
				return nil
			}
		}
		vrt.RunFor(20000)
	}
	nothing()
}

func pick(quick, thorough int) int {
	if vrt.Thorough() {
		return thorough
	}
	return quick
}
