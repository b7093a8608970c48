// Package c26: the counters of the go runtime.
package c26

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter/gocounter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/runtime"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// H_Rates: the rates of garbage collections and their pauses.
func H_Rates() {
	vrt.Bound("two looks at the runtime with up to 31 collections and 31 µs or ms of pause between them, 1 ms to 1 minute apart (5 intervals), or after 5 numbers of collections (around 2^31 and 2^32) and 3 of pauses")
	vrt.Advance(10)
	ms, unit := int64(2000), int64(1000000)
	runtime.Mem.NumGC, runtime.Mem.PauseTotalNs = 7, 123456789
	if vrt.Choose("vary", 2) == 0 {
		runtime.Mem.NumGC = []uint32{0, 7, 1<<31 - 3, 1<<32 - 3, 1<<31 + 9}[vrt.Choose("collections", 5)]
		runtime.Mem.PauseTotalNs = []uint64{0, 123456789, 1 << 40}[vrt.Choose("pauses", 3)]
	} else {
		ms = []int64{1, 10, 1000, 2007, 60000}[vrt.Choose("interval", 5)]
		unit = []int64{1000, 1000000}[vrt.Choose("unit", 2)]
	}
	first := gocounter.GetGoCounter(gocounter.GoCounter{})
	vrt.Assert(first.GcPerSec == 0 && first.GcPausePerSec == 0, "there are rates without an interval")
	vrt.Advance(ms)
	n := vrt.U8("n") % 32
	pause := int64(vrt.U8("pause")%32) * unit
	runtime.Mem.NumGC += uint32(n)
	runtime.Mem.PauseTotalNs += uint64(pause)
	got := gocounter.GetGoCounter(first)
	// rates times the interval, rounded, are the numbers themselves
	k := int64(got.GcPerSec*float64(ms)/1000 + 0.5)
	vrt.Assert(k == int64(n), "the rate of collections is wrong")
	us := int64(got.GcPausePerSec*float64(ms) + 0.5)
	vrt.Assert(us == pause/1000, "the rate of pauses is wrong")
}

// H_Pack: the counters in the packs.
func H_Pack() {
	vrt.Bound("three packs 2 s apart, any numbers of goroutines, cgo calls and bytes up to 16 bits or over 2^32 at each, up to 15 collections or 15 ms of pause before one of them, none or some before the others")
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	hconf.Set()
	countertask.Start()
	vrt.RunFor(100)
	goroutines := 5
	runtime.Goroutines = func() int { return goroutines }
	any := vrt.Choose("any", 5)
	at := vrt.Choose("at", 3)
	runtime.Mem.NumGC = 100
	runtime.Mem.PauseTotalNs = 5000000000
	for i := 0; i < 3; i++ {
		goroutines, runtime.CgoCalls, runtime.Mem.HeapAlloc = 10+i, int64(20+i), uint64(1000000+i)
		n, pause := int64(4), int64(8)
		if i > 0 && vrt.Choose("idle", 2) == 1 {
			n, pause = 0, 0
		}
		if i == at {
			high := int64(vrt.Choose("high", 2)) << 33
			switch any {
			case 0:
				goroutines = int(vrt.U16("goroutines"))
			case 1:
				runtime.CgoCalls = int64(vrt.U16("calls")) + high
			case 2:
				runtime.Mem.HeapAlloc = uint64(vrt.U16("bytes")) + uint64(high)
			case 3:
				n = int64(vrt.U8("n") % 16)
			case 4:
				pause = int64(vrt.U8("pause") % 16)
			}
		}
		runtime.Mem.NumGC += uint32(n)
		runtime.Mem.PauseTotalNs += uint64(pause) * 1000000
		vrt.RunFor(2000)
		k := 0
		for _, p := range hcommon.Collect(net.Datagrams).Packs {
			if p.Tag != 60 {
				continue
			}
			if k++; k != i+1 {
				continue
			}
			is := func(key string, want int64, what string) {
				v := p.Data.Get(key)
				vrt.Assert(v != nil && v.Tag == 20 && v.N == want, "the number of "+what+" is wrong")
			}
			is("Goroutine", int64(goroutines), "goroutines")
			is("GoCgoCall", runtime.CgoCalls, "cgo calls")
			is("GoHeapUsed", int64(runtime.Mem.HeapAlloc), "used bytes")
			rate := func(key string, want int64, what string) {
				if i == 0 {
					want = 0
				}
				v := p.Data.Get(key)
				vrt.Assert(v != nil && v.Tag == 30, "the pack has no rate of "+what)
				vrt.Assert(int64(v.Float()*2+0.25) == want, "the rate of "+what+" is wrong")
			}
			rate("GoGcCount", n, "collections")
			rate("GoGcPause", pause, "pauses")
		}
		vrt.Assert(k == i+1, "the counters are not sent every 2 seconds")
	}
}
