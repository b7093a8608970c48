package time

import (
	real "time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

func Now() Time { return real.Unix(0, vrt.NowNS()) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vrt.Sleep(int64(d)) }

func After(d Duration) <-chan Time {
	c := make(chan Time, 1)
	vrt.Go(func() {
		vrt.Sleep(int64(d))
		c <- Now()
		vrt.Touch()
	})
	return c
}

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	gen  int
	live bool
}

func (t *Timer) start(d Duration) {
	t.gen++
	g := t.gen
	t.live = true
	vrt.Go(func() {
		vrt.Sleep(int64(d))
		if t.gen != g || !t.live {
			return
		}
		t.live = false
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		vrt.Touch()
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	was := t.live
	t.live = false
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.live
	t.start(d)
	return was
}

type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen int
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.run(d)
	return t
}

func (t *Ticker) run(d Duration) {
	g := t.gen
	vrt.Go(func() {
		for {
			vrt.Sleep(int64(d))
			if t.gen != g {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
			vrt.Touch()
		}
	})
}
func (t *Ticker) Stop() { t.gen++ }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.gen++
	t.run(d)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
