// Package c24: the agent registers its object with the collector.
package c24

import (
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

const path = "/etc/scouter.conf"

func same(a, b string) bool { return hcommon.Same([]byte(a), []byte(b)) }

// state is the configured object.
type state struct{ name, typ string }

func (s state) full() string { return "/host/" + s.name }

// objects checks the packs of objects among those received from one datagram to another, and counts them.
func objects(from, to int, s state) int {
	n := 0
	for _, p := range hcommon.Collect(net.Datagrams[from:to]).Packs {
		if p.Tag == 80 {
			n++
			vrt.Assert(same(p.ObjName, s.full()), "the object is registered with another name than the configured one")
			vrt.Assert(p.Hash == hcommon.Crc(s.full()), "the object is registered with a hash that is not that of its name")
			vrt.Assert(same(p.ObjType, s.typ), "the object is registered with another type than the configured one")
			vrt.Assert(p.Alive && p.Version == "0.0.0", "the object is not registered as alive")
		}
	}
	return n
}

// known tells whether the collector has got the name of the object.
func known(s state) {
	ok := false
	for _, p := range hcommon.Collect(net.Datagrams).Packs {
		if p.Tag == 50 && p.Xtype == "object" {
			ok = vrt.Or(ok, vrt.And(p.Hash == hcommon.Crc(s.full()), same(p.Text, s.full())))
		}
	}
	vrt.Assert(ok, "the collector does not get the object's name")
}

// H_Register: the object is registered again and again as it is configured.
func H_Register() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	vrt.Bound("the start of the agent and up to 2 more calls of Init, then 2 (thorough: 3) changes of name or type to any letters or back, each after one of 4 pauses, read at once or by the agent itself")
	vrt.SetLimit(30000000)
	os.Setenv("SCOUTER_CONFIG", path)
	for i := vrt.Choose("inits", 3); i > 0; i-- {
		scouterx.Init()
	}
	s := state{"go1", "golang"}
	vrt.RunFor(300)
	vrt.Assert(objects(0, len(net.Datagrams), s) == 1, "the object is not registered once at the start")
	known(s)
	c := conf.GetInstance()
	for i := 0; i < n; i++ {
		before := len(net.Datagrams)
		pause := []int64{0, 400, 1600, 2000}[vrt.Choose("pause", 4)]
		vrt.RunFor(pause)
		k := objects(before, len(net.Datagrams), s)
		vrt.Assert(k <= 1 && (pause < 2000 || k == 1), "the object is not registered every 2 seconds")
		old := s
		text := ""
		switch vrt.Choose("change", 4) {
		case 0:
			s.name = vrt.StringOver("name", 1, "abc")
			text = "obj_name=" + s.name + "\n"
			if s.typ != "golang" {
				text += "obj_type=" + s.typ + "\n"
			}
		case 1:
			s.typ = vrt.StringOver("type", 1, "abc")
			text = "obj_type=" + s.typ + "\n"
			if s.name != "go1" {
				text += "obj_name=" + s.name + "\n"
			}
		case 2:
			s = state{vrt.StringOver("name", 2, "xy"), vrt.StringOver("type", 2, "xy")}
			text = "obj_type=" + s.typ + "\nobj_name=" + s.name + "\n"
		case 3:
			s = state{"go1", "golang"}
			text = "xlog_sampling_enabled=true\n"
		}
		os.Put(path, []byte(text))
		before = len(net.Datagrams)
		if i == 0 && vrt.Choose("wait", 2) == 1 {
			for !same(c.ObjName, s.full()) || !same(c.ObjType, s.typ) {
				vrt.Assert(vrt.NowNS() < 60000000000+base, "the configuration is not read")
				before = len(net.Datagrams)
				vrt.RunFor(1)
			}
		} else {
			c.Refresh()
		}
		at := len(net.Datagrams)
		vrt.RunFor(300)
		known(s)
		vrt.RunFor(1700)
		_ = old
		vrt.Assert(objects(at, len(net.Datagrams), s) == 1, "the object is not registered every 2 seconds")
	}
}

var base = vrt.NowNS()

// H_Unreachable: the socket cannot be opened for a while.
func H_Unreachable() {
	vrt.Bound("a change of the collector's port after which opening the socket fails up to 4 times, or sending fails for some time; trace_obj_send on and off")
	vrt.SetLimit(30000000)
	os.Setenv("SCOUTER_CONFIG", path)
	vrt.RunFor(int64(vrt.Choose("start", 3)) * 700)
	fails := vrt.Choose("fails", 5)
	left := fails
	text := "net_collector_udp_port=7100\n"
	if vrt.Choose("trace", 2) == 1 {
		text += "trace_obj_send=true\n"
	}
	down := false
	net.UDPDialFault = func(string) error {
		if left--; left >= 0 {
			return errDown
		}
		return nil
	}
	net.UDPWriteFault = func([]byte) error {
		if down {
			return errDown
		}
		return nil
	}
	os.Put(path, []byte(text))
	conf.GetInstance().Refresh()
	vrt.RunFor(int64(fails)*1000 + 1100)
	vrt.Assert(left < 0, "the socket is not opened again")
	if vrt.BoolV("writes") {
		down = true
		vrt.RunFor(3000)
		down = false
	}
	before := len(net.Datagrams)
	vrt.RunFor(2100)
	n := objects(before, len(net.Datagrams), state{"go1", "golang"})
	vrt.Assert(n >= 1 && n <= 2, "the object is not registered after the collector was away")
	for _, d := range net.Dests[before:] {
		vrt.Assert(d == "127.0.0.1:7100", "the object is registered with another collector than the configured one")
	}
}

var errDown = errors.New("down")
