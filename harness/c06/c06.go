// Package c06: the outbound queue keeps order, drops only when full and never blocks.
package c06

import (
	"container/list"
	"errors"
	"strconv"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

func start(queue, max int) *udpsender.UDPSender {
	vrt.MustTerminate(true) // a sender that spins without ever waiting is a violation
	hconf.Set("send_queue_size="+strconv.Itoa(queue), "udp_max_bytes="+strconv.Itoa(max))
	return udpsender.GetInstance()
}

// H_Order: packs queued at any pace arrive in order, each once.
func H_Order() {
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	vrt.Bound("1..4 (5) packs of 1..3 bytes, contents symbolic, queued 0, 50 or 150 ms apart, limit 2..5 bytes")
	vrt.MustCover("batched")
	max := 2 + vrt.Choose("max", 4)
	s := start(8, max)
	n = 1 + vrt.Choose("packs", n)
	var all [][]byte
	for i := 0; i < n; i++ {
		p := vrt.Bytes("pack", 1+vrt.Choose("size", 3))
		all = append(all, append([]byte{}, p...))
		s.AddBuffer(p)
		if i < n-1 {
			if d := []int64{0, 50, 150}[vrt.Choose("pause", 3)]; d > 0 {
				vrt.RunFor(d)
			}
		}
	}
	vrt.RunFor(1000)
	hcommon.InOrder(net.Datagrams, all, max)
	_, m, _ := hcommon.Reassembled(net.Datagrams, all, max)
	if m > 0 {
		vrt.Cover("batched")
	}
}

// H_Full: with the sender asleep exactly the packs beyond the queue size are dropped, and the
// queue works again once it has been drained.
func H_Full() {
	vrt.Bound("queue of 1..4 packs, up to 3 packs more than fit, then another round")
	q := 1 + vrt.Choose("queue", 4)
	s := start(q, 60000)
	vrt.RunFor(10)
	var want [][]byte
	for round := 0; round < 2; round++ {
		extra := vrt.Choose("extra", 4)
		for i := 0; i < q+extra; i++ {
			p := vrt.Bytes("pack", 3)
			if i < q {
				want = append(want, p)
			}
			s.AddBuffer(p)
		}
		vrt.RunFor(500)
	}
	hcommon.Reassembled(net.Datagrams, want, 60000)
}

// H_Stall: the collector connection blocks; queueing does not, and what fits is sent afterwards.
func H_Stall() {
	vrt.Bound("socket write blocking at the first or second datagram, queue of 1..3, up to 2 packs more than fit")
	q := 1 + vrt.Choose("queue", 3)
	at := 1 + vrt.Choose("stalled datagram", 2)
	n := 0
	stalled, inside := true, false
	net.UDPWriteFault = func(b []byte) error {
		n++
		if n == at {
			inside = true
			for stalled {
				vrt.Block()
			}
		}
		return nil
	}
	s := start(q, 60000)
	var want [][]byte
	for i := 0; i < at; i++ {
		p := vrt.Bytes("pack", 2)
		want = append(want, p)
		s.AddBuffer(p)
		vrt.RunFor(200)
	}
	vrt.Assert(inside, "the sender does not send")
	extra := vrt.Choose("extra", 3)
	for i := 0; i < q+extra; i++ {
		p := vrt.Bytes("pack", 2)
		if i < q {
			want = append(want, p)
		}
		if i%2 == 0 {
			s.AddBuffer(p)
		} else {
			s.AddPack(&raw{p})
			if i < q {
				want[len(want)-1] = append([]byte{99}, p...)
			}
		}
		vrt.Assert(stalled, "")
	}
	stalled = false
	vrt.Touch()
	vrt.RunFor(1000)
	hcommon.Reassembled(net.Datagrams, want, 60000)
}

type raw struct{ b []byte }

func (r *raw) Write(out *nd.DataOutputX) error          { return out.Write(r.b) }
func (r *raw) Read(in *nd.DataInputX) (nd.Pack, error) { return r, nil }
func (r *raw) ToString() string                         { return "raw" }
func (r *raw) GetPackType() byte                        { return 99 }

// H_Fault: datagrams that fail are lost, but the sender goes on with the next ones.
func H_Fault() {
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	vrt.Bound("4 (6) packs sent one by one, any subset of the socket writes failing")
	s := start(8, 60000)
	fails := make([]bool, n)
	k := -1
	net.UDPWriteFault = func(b []byte) error {
		k++
		vrt.Assert(k < n, "a pack is sent more than once")
		if fails[k] {
			return errors.New("unreachable")
		}
		return nil
	}
	var want [][]byte
	for i := 0; i < n; i++ {
		fails[i] = vrt.BoolV("fails")
		p := vrt.Bytes("pack", 2)
		if !fails[i] {
			want = append(want, p)
		}
		s.AddBuffer(p)
		vrt.RunFor(300)
	}
	hcommon.Reassembled(net.Datagrams, want, 60000)
}

// H_Producers: concurrent producers and the sender under every schedule.
func H_Producers() {
	each, pre := 2, 3
	if vrt.Thorough() {
		pre = 5
	}
	vrt.Bound("2 producers of 2 packs each with the sender, all schedules with up to 3 (5) preemptions, queue of 2, 3, 4; data races")
	q := 2 + vrt.Choose("queue", 3)
	s := start(q, 60000)
	var ids []int
	mark := byte(0)
	net.UDPYield = true
	vrt.WakeSleepers = true
	vrt.Race()
	vrt.Explore(pre)
	for t := 0; t < 2; t++ {
		t := t
		ids = append(ids, vrt.Spawn(func() {
			for i := 0; i < each; i++ {
				s.AddPack(&raw{[]byte{byte(t), byte(i), mark}})
			}
		}))
	}
	vrt.Join(ids...)
	vrt.NoExplore()
	vrt.RunFor(1000)
	var got [2][]byte
	n := 0
	for _, d := range net.Datagrams {
		b := d[4:]
		if string(d[:4]) == "CAFN" {
			b = d[6:]
		}
		for ; len(b) >= 4; b = b[4:] {
			vrt.Assert(b[0] == 99, "a pack arrives damaged")
			got[b[1]] = append(got[b[1]], b[2])
			n++
		}
		vrt.Assert(len(b) == 0, "a pack arrives damaged")
	}
	for t := range got {
		for i := range got[t] {
			vrt.Assert(i == 0 || got[t][i] > got[t][i-1], "packs of one producer arrive out of order or twice")
		}
	}
	vrt.Assert(n >= q || n == 2*each, "a pack is dropped although the queue was not full")
}

// H_Direct: packs and lists sent directly arrive once.
func H_Direct() {
	vrt.Bound("one directly sent pack, one directly sent list of 0..3 buffers, one queued pack; symbolic contents")
	s := start(4, 60000)
	p := vrt.Bytes("direct", 2)
	s.SendPackDirect(&raw{p})
	vrt.RunFor(300)
	want := [][]byte{append([]byte{99}, p...)}
	s.SendDirect(nil)
	l := list.New()
	for i := vrt.Choose("list", 4); i > 0; i-- {
		b := vrt.Bytes("buf", 2)
		want = append(want, b)
		l.PushBack(b)
	}
	s.SendDirect(l)
	vrt.RunFor(300)
	q := vrt.Bytes("queued", 2)
	want = append(want, q)
	s.AddBuffer(q)
	vrt.RunFor(300)
	hcommon.Reassembled(net.Datagrams, want, 60000)
}

// H_Reload: packs queued after a change of the collector address reach the new one, with the new
// size limit; nothing is lost when packs wait in the queue during the change.
func H_Reload() {
	vrt.Bound("address, port and size limit changed once, in any combination; packs before, during and after")
	s := start(16, 1000)
	ip, port, max := "127.0.0.1", "6100", "1000"
	b1 := vrt.Bytes("before", 20)
	s.AddBuffer(b1)
	vrt.RunFor(1000)
	if vrt.Choose("ip", 2) == 1 {
		ip = "10.1.2.3"
	}
	if vrt.Choose("port", 2) == 1 {
		port = "7000"
	}
	limit := 1000
	if vrt.Choose("limit", 2) == 1 {
		limit = 12
		max = "12"
	}
	vrt.Assert(len(net.Datagrams) == 1 && net.Dests[0] == "127.0.0.1:6100", "the first pack does not reach the configured collector")
	hconf.Set("send_queue_size=16", "net_collector_ip="+ip, "net_collector_udp_port="+port, "udp_max_bytes="+max)
	vrt.RunFor(3000)
	n := len(net.Datagrams)
	vrt.Assert(n == 1, "a pack is sent twice")
	p2, p3 := vrt.Bytes("after", 20), vrt.Bytes("after", 3)
	s.AddBuffer(p2)
	s.AddBuffer(p3)
	vrt.RunFor(1000)
	for _, d := range net.Dests[n:] {
		vrt.Assert(d == ip+":"+port, "a pack queued after a configuration change goes to the old address")
	}
	want := [][]byte{p2, p3}
	hcommon.Reassembled(net.Datagrams[n:], want, limit)
}

// H_Reconnect: when the socket could not be opened, sending starts once it can be.
func H_Reconnect() {
	vrt.Bound("socket cannot be opened at start, for 1 to 3 attempts")
	bad := 1 + vrt.Choose("failures", 3)
	net.UDPDialFault = func(addr string) error {
		if bad > 0 {
			bad--
			return errors.New("no route")
		}
		return nil
	}
	s := start(4, 60000)
	s.AddBuffer([]byte{1})
	vrt.RunFor(60000)
	n := len(net.Datagrams)
	p := vrt.Bytes("pack", 2)
	s.AddBuffer(p)
	vrt.RunFor(1000)
	vrt.Assert(len(net.Datagrams) == n+1, "nothing is sent any more after the socket could not be opened")
	hcommon.Reassembled(net.Datagrams[n:], [][]byte{p}, 60000)
}

// H_Text: a pack goes out as its encoding.
func H_Text() {
	vrt.Bound("text pack with symbolic hash and 3-byte text, queued or direct")
	s := start(4, 60000)
	p := nd.NewTextPack()
	p.Xtype = texttype.SERVICE
	p.Hash = vrt.I32("hash")
	p.Text = vrt.String("text", 3)
	if vrt.Choose("direct", 2) == 1 {
		s.SendPackDirect(p)
	} else {
		s.AddPack(p)
	}
	vrt.RunFor(300)
	vrt.Assert(len(net.Datagrams) == 1, "not exactly one datagram")
	ps := hcommon.Datagram(net.Datagrams[0])
	vrt.Assert(len(ps) == 1 && ps[0].Tag == 50, "not a text pack")
	vrt.Assert(vrt.And(ps[0].Hash == p.Hash, ps[0].Text == p.Text), "text pack differs")
	vrt.Assert(ps[0].Xtype == string(texttype.SERVICE), "text pack differs")
}
