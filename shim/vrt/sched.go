package vrt

// A cooperative scheduler with a virtual clock. Exactly one thread runs at a time; control moves
// only inside Yield, Block, Sleep and thread exit.

type thr struct {
	id      int
	fn      func()
	wake    int64 // do not run before this virtual time
	blocked int64 // epoch at which the thread last found nothing to do; -1 none
	done    bool
	spins   int
	since   int64
}

var (
	threads  []*thr
	cur      int
	now      int64 = 1600000000000 * 1000000
	epoch    int64
	explore  bool
	switches int
)

func me() *thr {
	if len(threads) == 0 {
		threads = append(threads, &thr{blocked: -1})
		registerMain()
	}
	return threads[cur]
}

// NowNS is the virtual clock.
func NowNS() int64 { return now }

// SetNow sets the virtual clock, in milliseconds.
func SetNow(ms int64) { now = ms * 1000000 }

// SetNowNS sets the virtual clock, in nanoseconds.
func SetNowNS(ns int64) { now = ns }

// Advance moves the virtual clock forward by ms milliseconds without running other threads.
func Advance(ms int64) { now += ms * 1000000 }

// CurID is the identity of the running goroutine (1 for main).
func CurID() int { return cur + 1 }

// NumThreads counts the goroutines that have not ended.
func NumThreads() int {
	me()
	n := 0
	for _, t := range threads {
		if !t.done {
			n++
		}
	}
	return n
}

// Go is the go statement.
func Go(fn func()) {
	me()
	t := &thr{id: len(threads), fn: fn, blocked: -1}
	threads = append(threads, t)
	epoch++
	newThread(t.id, t)
	HBFork(t.id)
	Yield()
}

// ThreadPanic, when set before a goroutine starts, is given its panic, which then does not end the run if it returns true.
var ThreadPanic func(r interface{}) bool

func (t *thr) caught() {
	defer func() {
		if r := recover(); r != nil && !ThreadPanic(r) {
			panic(r)
		}
	}()
	t.fn()
}

// runThread is the body of every goroutine.
func runThread(t *thr) {
	if ThreadPanic != nil {
		t.caught()
	} else {
		t.fn()
	}
	HBEnd(t.id)
	t.done = true
	epoch++
	next := pick(t.id)
	if next < 0 {
		deadlock()
	}
	cur = next
	exitTo(next)
}

// pick chooses the next thread to run, other than the one given unless nothing else can run.
// It advances the clock when every thread sleeps. -1: every thread is blocked.
func pick(from int) int {
	n := len(threads)
	best := -1
	for k := 1; k <= n; k++ {
		i := (from + k) % n
		t := threads[i]
		if t.done || t.blocked == epoch {
			continue
		}
		if t.wake <= now {
			return i
		}
		if best < 0 || t.wake < threads[best].wake {
			best = i
		}
	}
	if best >= 0 {
		now = threads[best].wake
		threads[best].wake = 0
	}
	return best
}

func switchTo(i int) {
	if i == cur {
		return
	}
	from := cur
	cur = i
	transfer(from, i)
	cur = from
}

// Block is called by a thread that cannot go on before another one has changed something.
func Block() {
	t := me()
	if t.spins == 0 {
		t.since = now
	}
	t.spins++
	t.blocked = epoch
	if t.id == 0 && now-t.since > 48*3600*1000000000 {
		Fail("blocked for ever")
	}
	i := pick(t.id)
	if i < 0 && retriedAt != epoch {
		// something may have changed unnoticed, like a channel closed by the standard library
		epoch++
		retriedAt = epoch
		i = pick(t.id)
	}
	if i < 0 {
		deadlock()
		return
	}
	switchTo(i)
	t.blocked = -1
}

var retriedAt int64

func deadlock() {
	Fail("deadlock: every goroutine is blocked")
}

func unblocked() {
	threads[cur].spins = 0
	epoch++
}

// Touch tells the scheduler that something changed that may unblock others.
func Touch() { epoch++ }

// Sleep lets the other threads run for ns of virtual time.
func Sleep(ns int64) {
	t := me()
	epoch++
	if ns < 0 {
		ns = 0
	}
	t.wake = now + ns
	i := pick(t.id)
	switchTo(i)
	t.wake = 0
}

// RunFor lets the other threads run for ms of virtual time.
func RunFor(ms int64) { Sleep(ms * 1000000) }

// Explore makes Yield a choice among the runnable threads, with at most n preemptions.
func Explore(n int) {
	explore = true
	switches = n
}

// WakeSleepers lets Explore also switch to sleeping threads, letting their time pass.
var WakeSleepers bool

// Among, when set, are the only threads (as CurID tells them) among which Explore switches.
var Among []int

func among(i int) bool {
	for _, id := range Among {
		if id == i+1 {
			return true
		}
	}
	return Among == nil
}

// NoExplore ends Explore.
func NoExplore() { explore = false }

// Yield is a possible context switch.
func Yield() {
	if !explore || switches <= 0 {
		return
	}
	t := me()
	if !among(t.id) {
		return
	}
	var ready []int
	for i, o := range threads {
		if i != t.id && among(i) && !o.done && o.blocked != epoch && (WakeSleepers || o.wake <= now) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		return
	}
	k := Choose("schedule", len(ready)+1)
	if k == 0 {
		return
	}
	switches--
	o := threads[ready[k-1]]
	if o.wake > now {
		now = o.wake
	}
	switchTo(o.id)
}

// Join waits until every goroutine other than main has ended or sleeps or is blocked.
func Join(ids ...int) {
	for {
		ok := true
		for _, id := range ids {
			if !threads[id-1].done {
				ok = false
			}
		}
		if ok {
			me().spins = 0
			for _, id := range ids {
				HBJoin(id - 1)
			}
			return
		}
		Block()
	}
}

// Spawn is Go that tells the identity of the new goroutine, without a switch.
func Spawn(fn func()) int {
	me()
	t := &thr{id: len(threads), fn: fn, blocked: -1}
	threads = append(threads, t)
	epoch++
	newThread(t.id, t)
	HBFork(t.id)
	return t.id + 1
}

// ---- channels: called before channel operations of the code under test

func BeforeRecv(ch interface{}) {
	Yield()
	for !chanReady(ch, false) {
		Block()
	}
	if len(threads) > 0 {
		unblocked()
	}
}

func BeforeSend(ch interface{}) {
	Yield()
	for !chanReady(ch, true) {
		Block()
	}
	if len(threads) > 0 {
		unblocked()
	}
}

// BeforeSelect waits until one of the operations of a blocking select can go on.
func BeforeSelect(recv []interface{}, send []interface{}) {
	Yield()
	for {
		for _, c := range recv {
			if chanReady(c, false) {
				me()
				unblocked()
				return
			}
		}
		for _, c := range send {
			if chanReady(c, true) {
				me()
				unblocked()
				return
			}
		}
		Block()
	}
}

// ---- locks

// Lock is the state of a mutex.
type Lock struct {
	w       bool
	r       int
	waiting int // writers waiting: new readers queue behind them
	hbw     int // released by writers
	hbr     int // released by readers
}

func (l *Lock) Lock() {
	Yield()
	if l.w || l.r > 0 {
		l.waiting++
		for l.w || l.r > 0 {
			Block()
		}
		l.waiting--
		unblocked()
	}
	l.w = true
	HBAcq(&l.hbw)
	HBAcq(&l.hbr)
}

func (l *Lock) TryLock() bool {
	Yield()
	if l.w || l.r > 0 {
		return false
	}
	l.w = true
	HBAcq(&l.hbw)
	HBAcq(&l.hbr)
	return true
}

func (l *Lock) Unlock(what string) {
	if !l.w {
		Fail("fatal error: sync: unlock of unlocked " + what)
	}
	HBRel(&l.hbw)
	l.w = false
	epoch++
	Yield()
}

func (l *Lock) RLock() {
	Yield()
	if l.w || l.waiting > 0 {
		for l.w || l.waiting > 0 {
			Block()
		}
		unblocked()
	}
	l.r++
	HBAcq(&l.hbw)
}

func (l *Lock) RUnlock() {
	if l.r <= 0 {
		Fail("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	HBRel(&l.hbr)
	l.r--
	epoch++
	Yield()
}

func (l *Lock) TryRLock() bool {
	Yield()
	if l.w || l.waiting > 0 {
		return false
	}
	l.r++
	HBAcq(&l.hbw)
	return true
}

// Held tells whether somebody holds the lock.
func (l *Lock) Held() bool { return l.w || l.r > 0 }

// Stmt is put before every statement of the packages a harness names in a "//verif:stmt" line.
func Stmt() {
	if explore && switches > 0 {
		Yield()
	}
}
