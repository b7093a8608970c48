// Package c17: counters describe exactly the sliding window they are asked for.
package c17

import (
	"context"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt counter

type event struct {
	sec     int64
	elapsed int
	err     bool
	value   float64
}

func second() int64 { return vrt.NowNS() / 1000000000 }

var gaps = []int64{0, 1, 29, 30, 299, 300, 301, 602}

// pass lets a gap of time pass: one of the boundary values.
func pass(name string) {
	g := gaps
	if vrt.Thorough() {
		g = append(append([]int64{}, g...), 31, 271, 302, 100000)
	}
	vrt.Advance(1000 * g[vrt.Choose(name, len(g))])
}

// within tells whether an event is in the window of the last p seconds, the current one included.
func within(e event, p int) bool { return second()-e.sec < int64(p) }

func ite(c bool, v int) int { return int(vrt.Ite(c, int64(v), 0)) }

// H_Service: service counters over histories of ended services.
func H_Service() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	vrt.Bound("2 services (3 in thorough), the first with every elapsed time and error, ended at gaps of 0, 1, 29, 30, 299..301 and 602 s (also 31, 271, 302 and 100000 s in thorough); periods 1, 30, 299, 300 and 1000")
	vrt.SetLimit(20000000)
	m := counter.GetServiceMeter()
	var evs []event
	for i := 0; i < n; i++ {
		e := event{elapsed: 7 * i, err: i == 2}
		if i == 0 {
			vrt.Advance(1000 * []int64{0, 1, 301}[vrt.Choose("start", 3)])
			e.elapsed, e.err = int(vrt.I32("elapsed")), vrt.BoolV("err")
			vrt.Assume(e.elapsed > -1000)
		} else {
			pass("gap")
		}
		e.sec = second()
		m.Add(e.elapsed, e.err)
		evs = append(evs, e)
	}
	pass("gap")
	p := []int{1, 30, 299, 300, 1000}[vrt.Choose("period", 5)]
	c := m.GetAllCounter(p)
	if p > 300 {
		p = 300
	}
	count, total, failed := 0, 0, 0
	for _, e := range evs {
		if within(e, p) {
			count++
			total += ite(e.elapsed > 0, e.elapsed)
			failed += ite(e.err, 1)
		}
	}
	vrt.Assert(c.Tps == float32(count)/float32(p), "the rate is not the number of services of the window by its length")
	if count == 0 {
		vrt.Assert(c.Elapsed == 0 && c.ErrorRate == 0, "a counter without services is not 0")
		return
	}
	vrt.Assert(c.Elapsed == total/count, "the elapsed time is not the average of the window")
	r := c.ErrorRate * float32(count)
	vrt.Assert(vrt.And(r > float32(failed)*100-0.1, r < float32(failed)*100+0.1), "the error rate is not the share of failed services of the window in percent")
}

// H_Slide: any distance between the event and the reading.
func H_Slide() {
	vrt.Bound("one service, read 0..4 s, 27..31 s, 298..302 s, and 600..604 s later, around the changes of the second (after every number of milliseconds in steps of 10 up to 640 s in thorough); periods 1, 30 and 300; the ring starts anywhere of 3 places")
	vrt.Advance(1000 * []int64{0, 150, 299}[vrt.Choose("start", 3)])
	m := counter.GetServiceMeter()
	vrt.Advance(1370)
	m.Add(10, true)
	at := second()
	if vrt.Thorough() {
		d := int64(vrt.U16("ms10"))
		vrt.Assume(d < 64000)
		vrt.Advance(10 * d)
	} else {
		vrt.Advance(1000*[]int64{0, 27, 298, 600}[vrt.Choose("about", 4)] + int64(vrt.Choose("s", 4))*1000 + []int64{0, 629, 630, 999}[vrt.Choose("ms", 4)])
	}
	p := []int{1, 30, 300}[vrt.Choose("period", 3)]
	c := m.GetAllCounter(p)
	in := second()-at < int64(p)
	vrt.Assert((c.Tps > 0) == in, "a service is counted outside of its window, or not within")
	vrt.Assert((c.Elapsed == 10) == in, "a service is counted outside of its window, or not within")
	vrt.Assert((c.ErrorRate > 99) == in, "a service is counted outside of its window, or not within")
}

// H_Value: value counters.
func H_Value() {
	vrt.Bound("2 values (one of them every integer of -128..127) at gaps as for services, periods 1, 30, 299 and 300")
	m := counter.NewValueMeter()
	var evs []event
	for i := 0; i < 2; i++ {
		pass("gap")
		v := 3.25
		if i == 0 {
			v = float64(vrt.I8("v"))
		}
		m.Add(v)
		evs = append(evs, event{sec: second(), value: v})
	}
	pass("gap")
	p := []int{1, 30, 299, 300}[vrt.Choose("period", 4)]
	c := m.GetAllCounter(p)
	sum, n := 0.0, 0
	for _, e := range evs {
		if within(e, p) {
			sum += e.value
			n++
		}
	}
	vrt.Assert(c.Sum == sum, "the sum is not that of the window")
	if n > 0 {
		sum /= float64(n)
	}
	vrt.Assert(c.Avg == sum, "the average is not that of the window")
}

// H_Concurrent: services end and counters are read at the same time.
func H_Concurrent() {
	vrt.Bound("two ends and a reading at the same time, around a change of the second; every statement of the counters is a possible switch, 1 switch (2 in thorough); data races")
	m := counter.GetServiceMeter()
	v := counter.NewValueMeter()
	m.Add(10, false)
	v.Add(10)
	vrt.Advance(998)
	what := vrt.Choose("what", 4)
	add := func() {
		if what >= 2 {
			v.Add(10)
		} else {
			m.Add(10, false)
		}
	}
	t := vrt.Spawn(func() {
		add()
		vrt.Advance(2)
		add()
	})
	vrt.Race()
	if vrt.Thorough() {
		vrt.Explore(2)
	} else {
		vrt.Explore(1)
	}
	if what%2 == 0 {
		add()
	} else if what == 1 {
		c := m.GetAllCounter(30)
		vrt.Assert(c.Elapsed == 10, "a reading sees a half counted service")
	} else {
		c := v.GetAllCounter(30)
		vrt.Assert(c.Avg == 10, "a reading sees a half counted value")
	}
	vrt.Join(t)
	vrt.NoExplore()
	n := 4 - what%2
	if what < 2 {
		c := m.GetAllCounter(30)
		vrt.Assert(c.Tps == float32(n)/30 && c.Elapsed == 10, "a service is not counted exactly once")
	} else {
		c := v.GetAllCounter(30)
		vrt.Assert(c.Sum == float64(10*n), "a value is not counted exactly once")
	}
}

func near(v *hcommon.Val, want float32) bool {
	if v == nil || v.Tag != 30 {
		return false
	}
	d := want/2000 + 1e-9
	return v.Float() >= want-d && v.Float() <= want+d
}

// H_Packs: the counter packs of the agent.
func H_Packs() {
	vrt.Bound("0..3 ended services with and without errors, 0..2 active ones of each speed; the packs of the first 10 s, after 80 s of which one or both of two services were active 40, and after 330 s without ended services")
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	strace.StartTracingMode()
	c := hconf.Set("trace_activeservice_yellow_time=1000", "trace_activeservice_red_time=3000", "stuck_service_base_time_ms=1000000")
	c.ObjName = "/host/obj"
	bg := context.Background()
	mode := vrt.Choose("mode", 3)
	long := mode > 0
	yellow, red := 1, 1
	var first, last context.Context
	if long {
		vrt.SetLimit(40000000)
	} else {
		yellow = vrt.Choose("slow", 3)
		red = vrt.Choose("very slow", 2)
	}
	for i := 0; i < red; i++ {
		first = strace.StartService(bg, "/r", "")
	}
	vrt.Advance(2500)
	for i := 0; i < yellow; i++ {
		last = strace.StartService(bg, "/y", "")
	}
	n, bad := vrt.Choose("ended", 4), 0
	for i := 0; i < n; i++ {
		ctx := strace.StartService(bg, "/e", "")
		if !long && vrt.Choose("err", 2) == 1 {
			strace.MarkAsError(ctx, "e")
			bad++
		}
		vrt.Advance(50)
		strace.EndService(ctx)
	}
	countertask.Start()
	average := float32(0)
	if mode == 2 {
		// the second of two services ends after 40 of 80 seconds
		vrt.RunFor(41000)
		strace.EndService(last)
		// or both of them do
		none := vrt.Choose("none", 2) == 1
		if none {
			strace.EndService(first)
		}
		vrt.RunFor(40000 - 100)
		net.Datagrams = nil
		vrt.RunFor(11000)
		average = 1.45
		if none {
			average, red = 0.91, 0
		}
		yellow, n = 0, -1
	} else if mode == 1 {
		vrt.RunFor(330000)
		net.Datagrams = nil
		vrt.RunFor(11000)
		yellow, red, n, bad = 0, yellow+red, 0, 0
	} else {
		vrt.RunFor(11000)
	}
	// packs of type 3 are those of 5 minutes
	real, five := 0, 0
	for _, p := range hcommon.Collect(net.Datagrams).Packs {
		if p.Tag != 60 {
			continue
		}
		vrt.Assert(p.ObjName == "/host/obj", "a counter pack is of another object")
		window := float32(30)
		switch p.TimeType {
		case 1:
			real++
		case 3:
			five++
			window = 300
		default:
			vrt.Fail("a counter pack is of no known kind")
		}
		as := p.Data.Get("GoActiveService")
		if vrt.Assert(as != nil && as.Tag == 30, "the pack has no number of active services"); p.TimeType == 3 && mode == 2 {
			vrt.Assert(as.Float() > average-0.1 && as.Float() < average+0.1, "the number of active services is not the average of the last 300 seconds")
		} else {
			vrt.Assert(near(as, float32(yellow+red)), "the number of active services is not the average of the last 30 seconds")
		}
		if n < 0 {
			continue // the window of 30 and of 300 s hold different services
		}
		vrt.Assert(near(p.Data.Get("GoTPS"), float32(n)/window), "the rate of services in the pack is wrong")
		e := p.Data.Get("GoElapsedTime")
		vrt.Assert(e != nil && e.Tag == 20, "the pack has no elapsed time")
		rate := p.Data.Get("GoErrorRate")
		if n == 0 {
			vrt.Assert(e.N == 0 && near(rate, 0), "counters without services are not 0")
		} else {
			vrt.Assert(e.N == 50, "the elapsed time in the pack is wrong")
			vrt.Assert(near(rate, 100*float32(bad)/float32(n)), "the error rate in the pack is wrong")
		}
		if p.TimeType == 1 {
			a := p.Data.Get("ActiveSpeed")
			vrt.Assert(a != nil && a.Tag == 70 && len(a.List) == 3, "the pack has no active services by speed")
			vrt.Assert(a.List[0].N+a.List[1].N+a.List[2].N == int64(yellow+red), "the number of active services is wrong")
			if long {
				vrt.Assert(a.List[2].N == int64(red), "a long running service is not counted as very slow")
			} else if real == 1 {
				vrt.Assert(a.List[1].N == int64(yellow) && a.List[2].N == int64(red), "active services are of the wrong speed")
			}
			for _, k := range []string{"Goroutine", "GoCgoCall", "GoGcCount", "GoGcPause", "GoHeapUsed"} {
				vrt.Assert(p.Data.Get(k) != nil, "a counter of the go runtime is missing")
			}
		}
	}
	vrt.Assert(real >= 5, "the counters are not sent every two seconds")
	vrt.Assert(five >= 1, "the counters of five minutes are not sent")
}

// H_Once: the counters sent on demand.
func H_Once() {
	vrt.Bound("1..3 services, any of them failed")
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	hconf.Set()
	n, bad := 1+vrt.Choose("n", 3), 0
	for i := 0; i < n; i++ {
		b := vrt.Choose("bad", 2) == 1
		if b {
			bad++
		}
		counter.GetServiceMeter().Add(20, b)
	}
	counter.SendServiceCounter()
	vrt.RunFor(400)
	k := 0
	for _, p := range hcommon.Collect(net.Datagrams).Packs {
		if p.Tag == 60 {
			k++
			vrt.Assert(near(p.Data.Get("GoTPS"), float32(n)/30), "the rate of services in the pack is wrong")
			vrt.Assert(near(p.Data.Get("GoErrorRate"), 100*float32(bad)/float32(n)), "the error rate in the pack is wrong")
			vrt.Assert(p.Data.Get("GoElapsedTime").N == 20, "the elapsed time in the pack is wrong")
		}
	}
	vrt.Assert(k == 1, "the counters are not sent once")
}
