// Package vrt is the run-time support of the verification harnesses. It is executed by the
// symbolic engine and, with the same source, by native replays. Functions marked "intrinsic"
// are implemented by the engine; their bodies here are the native versions.
package vrt

// ---- symbolic inputs (intrinsic)

func U8(name string) uint8   { return uint8(readNum("u8", name)) }
func U16(name string) uint16 { return uint16(readNum("u16", name)) }
func U32(name string) uint32 { return uint32(readNum("u32", name)) }
func U64(name string) uint64 { return readNum("u64", name) }
func BoolV(name string) bool { return readNum("bool", name) != 0 }

func I8(name string) int8   { return int8(U8(name)) }
func I16(name string) int16 { return int16(U16(name)) }
func I32(name string) int32 { return int32(U32(name)) }
func I64(name string) int64 { return int64(U64(name)) }
func Int(name string) int   { return int(U64(name)) }

// Range is a symbolic integer in [lo, hi].
func Range(name string, lo, hi int) int {
	x := I64(name)
	Assume(And(x >= int64(lo), x <= int64(hi)))
	return int(x)
}

// Choose forks over 0..n-1 and returns a concrete value (intrinsic).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return Conc(Range(name, 0, n-1))
}

// Conc makes an integer concrete by forking over its feasible values (intrinsic).
func Conc(x int) int { return x }

// Bytes is a slice of n symbolic bytes (intrinsic).
func Bytes(name string, n int) []byte { return readBytes("bytes", name, n) }

// String is a string of n symbolic bytes (intrinsic).
func String(name string, n int) string { return string(readBytes("string", name, n)) }

// BytesUpTo and StringUpTo have a chosen length from 0 to n.
func BytesUpTo(name string, n int) []byte  { return Bytes(name, Choose(name+".len", n+1)) }
func StringUpTo(name string, n int) string { return String(name, Choose(name+".len", n+1)) }

// StringOver is a string of n symbolic bytes, each of which is one of the given alphabet.
func StringOver(name string, n int, alphabet string) string {
	s := String(name, n)
	for i := 0; i < n; i++ {
		AssumeIn(s[i], alphabet)
	}
	return s
}

// AssumeIn restricts a byte to an alphabet without forking.
func AssumeIn(b byte, alphabet string) {
	ok := false
	for i := 0; i < len(alphabet); i++ {
		ok = Or(ok, b == alphabet[i])
	}
	Assume(ok)
}

// Or and And combine conditions without forking (intrinsic).
func Or(a, b bool) bool  { return a || b }
func And(a, b bool) bool { return a && b }
func Not(a bool) bool    { return !a }

// Ite picks without forking (intrinsic).
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// ---- properties (intrinsic)

// Assume ends the path unless c holds.
func Assume(c bool) {
	if !c {
		nativeExit(5, "VERIF-ASSUME-FALSE")
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		nativeFail(msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Cover records that this point is reachable; a harness whose cover points are not all reached
// is reported as vacuous.
func Cover(name string) {}

// MustCover declares a cover point up front.
func MustCover(name string) {}

// ObsInt and ObsStr record values that a native replay must reproduce.
func ObsInt(name string, v int64)  { nativeObs(name, v) }
func ObsStr(name string, v string) { nativeObsStr(name, v) }

// Thorough tells which tier runs (intrinsic).
func Thorough() bool { return nativeThorough }

// Known excludes executions that a listed known finding explains: when the finding is listed and c
// holds, the finding is recorded and the path ends (intrinsic).
func Known(id string, c bool) {}

// InEngine tells whether the symbolic engine runs this code (intrinsic).
func InEngine() bool { return false }

// SetLimit sets the number of instructions after which a path is abandoned (intrinsic).
func SetLimit(n int) {}

// MustTerminate makes running into the instruction limit a violation (intrinsic).
func MustTerminate(on bool) {}

// SizeBound sets up to which value symbolic allocation sizes are enumerated (intrinsic).
func SizeBound(n int) {}

// MaxAlloc makes an allocation of more than n elements a violation (intrinsic).
func MaxAlloc(n int) {}

// MaxCalls makes more than n nested calls a violation (intrinsic). Natively the stack has to overflow.
func MaxCalls(n int) {}

// Bound records a bound of the harness for the report (intrinsic).
func Bound(text string) {}

func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// HostExit is where os.Exit and log.Fatal arrive: the agent ends the host process.
func HostExit(why string) {
	if HostExitHook != nil {
		HostExitHook(why)
		return
	}
	Fail("the agent ends the host process: " + why)
}

var HostExitHook func(why string)

// Catch runs f and returns the text of its panic, if any.
func Catch(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// RuntimeError stands for the run-time errors of the interpreted program.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}
