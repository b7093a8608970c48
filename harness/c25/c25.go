// Package c25: reconnecting to the collector.
package c25

import (
	"io"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

func setup() *hcommon.Server {
	vrt.SetLimit(30000000)
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	hconf.Set("net_collector_tcp_connection_timeout_ms=4000")
	s := hcommon.NewServer()
	tcpclient.StartTcp()
	return s
}

// pause checks the pause before attempt k (counted from 1) after a connection, in ns from the end of the attempt before.
func pause(k int, from, to int64) {
	want := int64(3000)
	for i := 1; i < k && want < 60000; i++ {
		want *= 2
	}
	if want > 60000 {
		want = 60000
	}
	got := to - from
	vrt.Assert(got >= want*1000000, "the agent comes back to the collector too early")
	vrt.Assert(got <= (want+2000)*1000000, "the agent comes back to the collector too late")
}

// H_Refused: attempts that fail, and sessions that end.
func H_Refused() {
	vrt.Bound("0, 1 or 7 (thorough: 0..7 or 9) attempts that fail, then a session, then as many more attempts that fail, then a session; the first attempt, the one that succeeds or the last that fails (thorough: any attempt) taking any time up to 4000 ms and the first session lasting any time up to 5000 ms")
	setup()
	rows := []int{0, 1, 7}
	if vrt.Thorough() {
		rows = []int{0, 1, 2, 3, 4, 5, 6, 7, 9}
	}
	first := rows[vrt.Choose("first", len(rows))]
	second := rows[vrt.Choose("second", len(rows))]
	slow := []int{0, first, first + second}[vrt.Choose("slow", 3)]
	if vrt.Thorough() {
		slow = vrt.Choose("at", first+second+2)
	}
	took := int64(vrt.Range("took", 0, 4000000000))
	lasts := int64(0)
	if slow == 0 {
		lasts = int64(vrt.Range("lasts", 0, 5000000000))
	}
	var ends []int64
	last := false
	net.TCPDialer = func(a string) *net.TCPConn {
		if len(ends) == slow {
			vrt.Sleep(took)
		}
		n := len(ends)
		ends = append(ends, vrt.NowNS())
		switch n {
		case first:
			return &net.TCPConn{AtEnd: func(c *net.TCPConn) error {
				vrt.Sleep(lasts)
				ends[n] = vrt.NowNS()
				return io.EOF
			}}
		case first + second + 1:
			return &net.TCPConn{AtEnd: func(c *net.TCPConn) error {
				last = true
				for {
					vrt.Sleep(1000000000000)
				}
			}}
		}
		return nil
	}
	vrt.RunFor(1100000)
	vrt.Assert(len(ends) >= first+second+2 && last, "the agent does not try again")
	vrt.Assert(len(ends) == first+second+2, "the agent connects though it has a session")
	for k := 1; k < len(ends); k++ {
		n := k
		if k > first {
			n = k - first
		}
		pause(n, ends[k-1], net.DialTimes[k])
	}
}

// H_Options: attempts are limited by the connection timeout and go to the configured collector.
func H_Options() {
	vrt.Bound("two failing attempts; connection timeouts of 100, 3000 and 4000 ms; a change of the collector between them")
	k := vrt.Choose("timeout", 3)
	s := setup()
	s.Refuse = true
	opts := []string{"net_collector_tcp_connection_timeout_ms=" + []string{"100", "3000", "4000"}[k], "net_collector_ip=10.1.2.3", "net_collector_tcp_port=7000"}
	hconf.Set(opts...)
	for len(net.DialTimes) < 1 {
		vrt.RunFor(500)
	}
	vrt.Assert(net.DialLimits[0] == []int64{100, 3000, 4000}[k]*1000000, "an attempt is not limited by the connection timeout")
	vrt.Assert(net.DialAddrs[0] == "10.1.2.3:7000", "the attempt is not for the configured collector")
	opts[1] = "net_collector_ip=10.1.2.4"
	opts[2] = "net_collector_tcp_port=7001"
	hconf.Set(opts...)
	for i := 0; i < 20 && len(net.DialTimes) < 2; i++ {
		vrt.RunFor(500)
	}
	vrt.Assert(len(net.DialTimes) == 2 && net.DialAddrs[1] == "10.1.2.4:7001", "the next attempt is not for the configured collector")
}
