package rand

import "github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"

// Symbolic makes the random functions return arbitrary values of their range; otherwise they
// return a fixed sequence.
var Symbolic bool

// Draw, when set, gives the number below n.
var Draw func(n int64) int64

var seq uint64 = 0x9e3779b97f4a7c15

func next() uint64 {
	seq = seq*6364136223846793005 + 1442695040888963407
	return seq
}

func below(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if Draw != nil {
		return Draw(n)
	}
	if Symbolic {
		x := vrt.I64("rand")
		vrt.Assume(vrt.And(x >= 0, x < n))
		return x
	}
	return int64(next()>>1) % n
}

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type src struct{}

func (s *src) Int63() int64    { return Int63() }
func (s *src) Seed(seed int64) {}
func NewSource(seed int64) Source { return &src{} }

type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

func (r *Rand) Int63() int64             { return Int63() }
func (r *Rand) Uint32() uint32           { return Uint32() }
func (r *Rand) Uint64() uint64           { return Uint64() }
func (r *Rand) Int31() int32             { return Int31() }
func (r *Rand) Int() int                 { return Int() }
func (r *Rand) Int63n(n int64) int64     { return below(n) }
func (r *Rand) Int31n(n int32) int32     { return int32(below(int64(n))) }
func (r *Rand) Intn(n int) int           { return int(below(int64(n))) }
func (r *Rand) Float64() float64         { return Float64() }
func (r *Rand) Float32() float32         { return float32(Float64()) }
func (r *Rand) Seed(seed int64)          {}
func (r *Rand) Read(p []byte) (int, error) { return Read(p) }

func Seed(seed int64) {}
func Int63() int64 {
	if Symbolic {
		x := vrt.I64("rand")
		vrt.Assume(x >= 0)
		return x
	}
	return int64(next() >> 1)
}
func Uint32() uint32       { return uint32(Int63() >> 31) }
func Uint64() uint64 {
	if Symbolic {
		return vrt.U64("rand")
	}
	return next()
}
func Int31() int32         { return int32(Int63() >> 32) }
func Int() int             { return int(uint(Int63())) }
func Int63n(n int64) int64 { return below(n) }
func Int31n(n int32) int32 { return int32(below(int64(n))) }
func Intn(n int) int       { return int(below(int64(n))) }
func Float64() float64 {
	if Symbolic {
		return float64(below(1<<20)) / (1 << 20)
	}
	return float64(next()>>11) / (1 << 53)
}
func Float32() float32 { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(next() >> 56)
	}
	return len(p), nil
}
