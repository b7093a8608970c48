package main

// Happens-before race detection on the explored schedules. It is on after vrt.Race(true); accesses
// made in the harness and the environment stand-ins are not looked at. Every access is compared
// with the accesses before it that no synchronisation orders before it.

type shadow struct{}

func (s *shadow) clone() *shadow { return s }

type epochT struct {
	t     int
	c     int32
	where string
}

type cell struct {
	w epochT
	r []epochT
}

type raceState struct {
	vc    [][]int32
	locks layered[int64, []int32]
	mem   layered[int64, *cell] // cells are never changed in place
}

func (r *raceState) clone() *raceState {
	n := &raceState{locks: r.locks.clone(), mem: r.mem.clone()}
	for _, v := range r.vc {
		n.vc = append(n.vc, append([]int32(nil), v...))
	}
	return n
}

// clock is the vector clock of a thread.
func (r *raceState) clock(t int) []int32 {
	for len(r.vc) <= t {
		r.vc = append(r.vc, nil)
	}
	v := r.vc[t]
	for len(v) <= t {
		v = append(v, 0)
	}
	if v[t] == 0 {
		v[t] = 1
	}
	r.vc[t] = v
	return v
}

func join(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func at(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (w *Worker) access(o *Object, id int32, off, n int, write bool) {
	r := w.st.race
	if r == nil {
		return
	}
	fr := w.st.top()
	if fr.fn.inRT {
		return
	}
	t := w.st.cur
	vc := r.clock(t)
	where := fr.fn.name
	for i := off; i < off+n; i++ {
		k := int64(id)<<32 | int64(uint32(i))
		c, _ := r.mem.get(k)
		e := epochT{t, vc[t], where}
		if c != nil && (write && c.w == e && len(c.r) == 0 || !write && len(c.r) > 0 && c.r[len(c.r)-1] == e) {
			continue
		}
		nc := &cell{}
		if c != nil {
			if c.w.c > 0 && c.w.t != t && c.w.c > at(vc, c.w.t) {
				w.raceFound(c.w.where, where)
			}
			if write {
				for _, x := range c.r {
					if x.t != t && x.c > at(vc, x.t) {
						w.raceFound(x.where, where)
					}
				}
			} else {
				nc.w = c.w
				for _, x := range c.r {
					if x.t != t {
						nc.r = append(nc.r, x)
					}
				}
			}
		}
		if write {
			nc.w = e
		} else {
			nc.r = append(nc.r, e)
		}
		r.mem.set(k, nc)
	}
}

func (w *Worker) raceFound(a, b string) {
	if b < a {
		a, b = b, a
	}
	m := "data race between " + a + " and " + b
	w.x.violation(w, m)
	endPath("violation", "%s", m)
}

func (w *Worker) hbAcquireAt(k int64) {
	if r := w.st.race; r != nil {
		t := w.st.cur
		held, _ := r.locks.get(k)
		r.vc[t] = join(r.clock(t), held)
	}
}

func (w *Worker) hbReleaseAt(k int64) {
	if r := w.st.race; r != nil {
		t := w.st.cur
		v := r.clock(t)
		held, _ := r.locks.get(k)
		r.locks.set(k, join(append([]int32(nil), held...), v))
		v[t]++
	}
}

func (w *Worker) hbAcquire(id int32) { w.hbAcquireAt(int64(id)<<32 | 0xffffffff) }
func (w *Worker) hbRelease(id int32) { w.hbReleaseAt(int64(id)<<32 | 0xffffffff) }

func ptrKey(p Ptr) int64 { return int64(p.obj)<<32 | int64(uint32(p.off)) }

func (w *Worker) hbFork(id int) {
	if r := w.st.race; r != nil {
		p := r.clock(w.st.cur)
		r.clock(id)
		r.vc[id] = join(append([]int32(nil), r.vc[id]...), p)
		r.vc[w.st.cur][w.st.cur]++
	}
}

func (w *Worker) hbJoin(id int) {
	if r := w.st.race; r != nil {
		r.vc[w.st.cur] = join(r.clock(w.st.cur), append([]int32(nil), r.clock(id)...))
	}
}
