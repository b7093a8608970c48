package runtime

import (
	real "runtime"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// StackDump, when set, is what Stack(buf, true) returns.
var StackDump func() []byte

func Stack(buf []byte, all bool) int {
	if all && StackDump != nil {
		return copy(buf, StackDump())
	}
	return copy(buf, "goroutine "+itoa(vrt.CurID())+" [running]:\nmain.main()\n\t/app/main.go:10 +0x20\n")
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

type Func struct{ name string }

func (f *Func) Name() string {
	if f == nil {
		return ""
	}
	return f.name
}
func (f *Func) FileLine(pc uintptr) (string, int) { return "/app/main.go", 10 }
func (f *Func) Entry() uintptr                    { return 0x1000 }

// CallerName is the function name reported for callers of the agent.
var CallerName = "main.handler"

func FuncForPC(pc uintptr) *Func { return &Func{CallerName} }

func Callers(skip int, pc []uintptr) int {
	if len(pc) == 0 {
		return 0
	}
	pc[0] = 0x1001
	return 1
}

func Caller(skip int) (pc uintptr, file string, line int, ok bool) {
	return 0x1001, "/app/main.go", 10, true
}

type Frame struct {
	PC       uintptr
	Func     *Func
	Function string
	File     string
	Line     int
	Entry    uintptr
}
type Frames struct{ n int }

func CallersFrames(pcs []uintptr) *Frames { return &Frames{len(pcs)} }
func (f *Frames) Next() (Frame, bool) {
	f.n--
	return Frame{PC: 0x1001, Func: &Func{CallerName}, Function: CallerName, File: "/app/main.go", Line: 10}, f.n > 0
}

var BlockProfileRate, MutexProfileFraction int

func SetBlockProfileRate(rate int) { BlockProfileRate = rate }
func SetMutexProfileFraction(rate int) int {
	old := MutexProfileFraction
	if rate >= 0 {
		MutexProfileFraction = rate
	}
	return old
}

// Goroutines, when set, is what NumGoroutine returns.
var Goroutines func() int

func NumGoroutine() int {
	if Goroutines != nil {
		return Goroutines()
	}
	return vrt.NumThreads()
}

// CgoCalls is what NumCgoCall returns.
var CgoCalls int64 = 1

func NumCPU() int          { return 8 }
func GOMAXPROCS(n int) int { return 8 }
func NumCgoCall() int64    { return CgoCalls }
func Version() string      { return "go1.15" }
func GC()                  {}
func Gosched()             { vrt.Yield() }

// Mem is what ReadMemStats reports.
var Mem MemStats

func ReadMemStats(m *MemStats) { *m = Mem }

func KeepAlive(x interface{}) {}

var _ = real.GOOS
