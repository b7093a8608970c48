package atomic

import "github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"

var l int

func a() { vrt.Yield(); vrt.HBAcq(&l) }
func r() { vrt.HBRel(&l) }

func AddInt32(p *int32, d int32) int32     { a(); *p += d; v := *p; r(); return v }
func AddInt64(p *int64, d int64) int64     { a(); *p += d; v := *p; r(); return v }
func AddUint32(p *uint32, d uint32) uint32 { a(); *p += d; v := *p; r(); return v }
func AddUint64(p *uint64, d uint64) uint64 { a(); *p += d; v := *p; r(); return v }
func LoadInt32(p *int32) int32             { a(); v := *p; r(); return v }
func LoadInt64(p *int64) int64             { a(); v := *p; r(); return v }
func LoadUint32(p *uint32) uint32          { a(); v := *p; r(); return v }
func LoadUint64(p *uint64) uint64          { a(); v := *p; r(); return v }
func StoreInt32(p *int32, v int32)         { a(); *p = v; r() }
func StoreInt64(p *int64, v int64)         { a(); *p = v; r() }
func StoreUint32(p *uint32, v uint32)      { a(); *p = v; r() }
func StoreUint64(p *uint64, v uint64)      { a(); *p = v; r() }
func SwapInt32(p *int32, v int32) int32    { a(); o := *p; *p = v; r(); return o }
func SwapInt64(p *int64, v int64) int64    { a(); o := *p; *p = v; r(); return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	a()
	ok := *p == o
	if ok {
		*p = n
	}
	r()
	return ok
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	a()
	ok := *p == o
	if ok {
		*p = n
	}
	r()
	return ok
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	a()
	ok := *p == o
	if ok {
		*p = n
	}
	r()
	return ok
}

type Bool struct{ v bool }

func (b *Bool) Load() bool   { a(); v := b.v; r(); return v }
func (b *Bool) Store(v bool) { a(); b.v = v; r() }
func (b *Bool) Swap(v bool) bool {
	a()
	o := b.v
	b.v = v
	r()
	return o
}
func (b *Bool) CompareAndSwap(o, n bool) bool {
	a()
	ok := b.v == o
	if ok {
		b.v = n
	}
	r()
	return ok
}

type Int32 struct{ v int32 }

func (b *Int32) Load() int32           { return LoadInt32(&b.v) }
func (b *Int32) Store(v int32)         { StoreInt32(&b.v, v) }
func (b *Int32) Add(d int32) int32     { return AddInt32(&b.v, d) }
func (b *Int32) Swap(d int32) int32    { return SwapInt32(&b.v, d) }
func (b *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&b.v, o, n) }

type Int64 struct{ v int64 }

func (b *Int64) Load() int64           { return LoadInt64(&b.v) }
func (b *Int64) Store(v int64)         { StoreInt64(&b.v, v) }
func (b *Int64) Add(d int64) int64     { return AddInt64(&b.v, d) }
func (b *Int64) Swap(d int64) int64    { return SwapInt64(&b.v, d) }
func (b *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&b.v, o, n) }

type Value struct{ v interface{} }

func (b *Value) Load() interface{}   { a(); v := b.v; r(); return v }
func (b *Value) Store(v interface{}) { a(); b.v = v; r() }
