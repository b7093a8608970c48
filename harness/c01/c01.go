// Package c01: what the wire primitives write, the wire primitives read back.
package c01

import (
	"bytes"
	"io"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt common/netdata

func done(r *reader) {
	vrt.Assert(r.pos == len(r.b), "bytes left over after reading back")
	vrt.Cover("done")
}

// reader hands out the stream in pieces of at most chunk bytes, as a TCP connection may.
type reader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

func in(b []byte, chunk int) (*netdata.DataInputX, *reader) {
	r := &reader{b: b, chunk: chunk}
	return netdata.NewDataInputX(r), r
}

func chunk() int { return vrt.Choose("chunk", 2) }

// sized asserts that the encoder's idea of its size is what it produced.
func sized(out *netdata.DataOutputX) {
	n := len(out.Bytes())
	vrt.Assert(int(out.Size()) == n, "Size differs from the bytes written")
	vrt.Assert(int(out.GetWriteSize()) == n, "GetWriteSize differs from the bytes written")
}

// width is the number of bytes of a decimal.
func width(v int64) int64 {
	w := vrt.Ite(v == int64(int32(v)), 5, 9)
	w = vrt.Ite(v == int64(int16(v)), 3, w)
	w = vrt.Ite(v == int64(int8(v)), 2, w)
	return vrt.Ite(v == 0, 1, w)
}

func H_Decimal() {
	vrt.MustCover("done")
	vrt.Bound("every 64-bit value; reads served whole or byte by byte")
	v := vrt.I64("v")
	out := netdata.NewDataOutputX(nil)
	_, err := out.WriteDecimal(v)
	vrt.Assert(err == nil, "WriteDecimal failed")
	vrt.ObsStr("bytes", string(out.Bytes()))
	vrt.Assert(int(out.Size()) == len(out.Bytes()), "Size differs from the bytes written")
	vrt.Assert(int64(len(out.Bytes())) == width(v), "a decimal is not written in its shortest form")
	sized(out)
	i, r := in(out.Bytes(), chunk())
	x, err := i.ReadDecimal()
	vrt.Assert(err == nil, "ReadDecimal failed")
	vrt.Assert(x == v, "decimal changed on the way")
	done(r)
}

func H_Decimal32() {
	vrt.MustCover("done")
	vrt.Bound("every 32-bit value")
	v := vrt.I32("v")
	out := netdata.NewDataOutputX(nil)
	out.WriteDecimal32(v)
	vrt.Assert(int64(len(out.Bytes())) == width(int64(v)), "a decimal is not written in its shortest form")
	sized(out)
	i, r := in(out.Bytes(), chunk())
	x, err := i.ReadDecimal()
	vrt.Assert(err == nil, "ReadDecimal failed")
	vrt.Assert(x == int64(v), "32-bit decimal changed on the way")
	done(r)
}

func H_Ints() {
	vrt.MustCover("done")
	vrt.Bound("every value of every fixed-width primitive, written one after the other")
	a, b, c, d := vrt.I8("a"), vrt.I16("b"), vrt.I32("c"), vrt.I64("d")
	e, f := vrt.U8("e"), vrt.U64("f")
	g := vrt.BoolV("g")
	out := netdata.NewDataOutputX(nil)
	out.WriteInt8(a)
	out.WriteInt16(b)
	out.WriteInt32(c)
	out.WriteInt64(d)
	out.WriteUInt8(e)
	out.WriteUInt64(f)
	out.WriteBoolean(g)
	vrt.Assert(len(out.Bytes()) == 25 && out.Size() == 25, "fixed-width sizes")
	// big-endian, independently of the reader
	w := out.Bytes()
	vrt.Assert(vrt.And(w[0] == byte(a), vrt.And(w[1] == byte(b>>8), w[2] == byte(b))), "int8/int16 are not big-endian")
	vrt.Assert(int32(uint32(w[3])<<24|uint32(w[4])<<16|uint32(w[5])<<8|uint32(w[6])) == c, "int32 is not big-endian")
	sized(out)
	i, r := in(w, chunk())
	a2, e1 := i.ReadInt8()
	b2, e2 := i.ReadInt16()
	c2, e3 := i.ReadInt32()
	d2, e4 := i.ReadInt64()
	e5v, e5 := i.ReadUInt8()
	f2, e6 := i.ReadInt64()
	g2, e7 := i.ReadBoolean()
	vrt.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil && e6 == nil && e7 == nil, "read failed")
	vrt.Assert(a2 == a, "int8 changed")
	vrt.Assert(b2 == b, "int16 changed")
	vrt.Assert(c2 == c, "int32 changed")
	vrt.Assert(d2 == d, "int64 changed")
	vrt.Assert(e5v == e, "uint8 changed")
	vrt.Assert(uint64(f2) == f, "uint64 changed")
	vrt.Assert(g2 == g, "boolean changed")
	done(r)
}

func H_Floats() {
	vrt.MustCover("done")
	vrt.Bound("every bit pattern of float32 and float64, NaNs included")
	a, b := vrt.U32("a"), vrt.U64("b")
	out := netdata.NewDataOutputX(nil)
	out.WriteFloat32(f32(a))
	out.WriteFloat64(f64(b))
	sized(out)
	i, r := in(out.Bytes(), chunk())
	x, e1 := i.ReadFloat32()
	y, e2 := i.ReadFloat64()
	vrt.Assert(e1 == nil && e2 == nil, "read failed")
	vrt.Assert(b32(x) == a, "float32 changed")
	vrt.Assert(b64(y) == b, "float64 changed")
	done(r)
}

// lengths at and around the switches of the length prefix
var lens = []int{0, 1, 2, 100, 252, 253, 254, 255, 256, 257, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 99999, 100000}

// content of n bytes, the first, the last and one arbitrary byte of it symbolic
func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	if n > 0 {
		b[0] = vrt.U8("first")
		b[n-1] = vrt.U8("last")
		b[n/2] = vrt.U8("mid")
	}
	return b
}

func pickLen() int {
	vrt.SetLimit(20000000)
	return lens[vrt.Choose("len", len(lens))]
}

func H_Blob() {
	vrt.MustCover("done")
	vrt.Bound("lengths 0,1,2,100 and the neighbours of 253,255,32767,65535,100000; three symbolic bytes in each; reads whole or in 1000-byte pieces")
	v := content(pickLen())
	out := netdata.NewDataOutputX(nil)
	out.WriteInt8(77)
	vrt.Assert(out.WriteBlob(v) == nil, "WriteBlob failed")
	out.WriteInt8(78)
	vrt.Assert(int(out.Size()) == len(out.Bytes()), "Size differs from the bytes written")
	sized(out)
	i, r := in(out.Bytes(), chunk()*1000)
	a, _ := i.ReadInt8()
	x, err := i.ReadBlob()
	vrt.Assert(err == nil, "ReadBlob failed")
	vrt.Assert(len(x) == len(v), "blob length changed")
	vrt.Assert(bytes.Equal(x, v), "blob changed on the way")
	z, err := i.ReadInt8()
	vrt.Assert(err == nil && a == 77 && z == 78, "a blob disturbs its neighbours")
	done(r)
}

func H_String() {
	vrt.MustCover("done")
	vrt.Bound("same lengths as for blobs; three symbolic bytes in each, so also invalid UTF-8")
	v := string(content(pickLen()))
	out := netdata.NewDataOutputX(nil)
	out.WriteString(v)
	out.WriteInt8(78)
	sized(out)
	i, r := in(out.Bytes(), chunk()*1000)
	x, err := i.ReadString()
	vrt.Assert(err == nil, "ReadString failed")
	vrt.Assert(x == v, "string changed on the way")
	z, err := i.ReadInt8()
	vrt.Assert(err == nil && z == 78, "a string disturbs its neighbours")
	done(r)
}

func H_HugeString() {
	vrt.MustCover("done")
	vrt.SetLimit(20000000)
	vrt.Bound("strings of 100001 and 150000 bytes")
	n := 100001
	if vrt.Choose("n", 2) == 1 {
		n = 150000
	}
	out := netdata.NewDataOutputX(nil)
	out.WriteString(string(make([]byte, n)))
	out.WriteInt8(78)
	vrt.Assert(len(out.Bytes()) < 1000, "a huge string is not abbreviated")
	sized(out)
	i, r := in(out.Bytes(), 0)
	x, err := i.ReadString()
	vrt.Assert(err == nil && len(x) > 0, "ReadString failed")
	z, err := i.ReadInt8()
	vrt.Assert(err == nil && z == 78, "a huge string disturbs its neighbours")
	done(r)
}

func H_ShortBytes() {
	vrt.MustCover("done")
	n := vrt.Choose("n", 9)
	vrt.Bound("blobs, strings, counted byte arrays and raw bytes of 0 to 8 arbitrary bytes, one after the other, reads whole or byte by byte")
	v := vrt.Bytes("v", n)
	s := vrt.String("s", n)
	out := netdata.NewDataOutputX(nil)
	out.WriteBlob(v)
	out.WriteString(s)
	out.WriteIntBytes(v)
	out.Write(v)
	sized(out)
	i, r := in(out.Bytes(), chunk())
	x, e1 := i.ReadBlob()
	y, e2 := i.ReadString()
	z, e3 := i.ReadIntBytes()
	vrt.Assert(e1 == nil && bytes.Equal(x, v), "blob changed")
	vrt.Assert(e2 == nil && y == s, "string changed")
	if n > 0 {
		vrt.Assert(e3 == nil && bytes.Equal(z, v), "counted bytes changed")
		q, e4 := i.Read(int32(n))
		vrt.Assert(e4 == nil && bytes.Equal(q, v), "raw bytes changed")
	} else {
		vrt.Assert(len(z) == 0, "counted bytes changed")
	}
	done(r)
}

func H_IntBytesLong() {
	vrt.MustCover("done")
	vrt.Bound("same lengths as for blobs; three symbolic bytes in each")
	v := content(pickLen())
	out := netdata.NewDataOutputX(nil)
	out.WriteIntBytes(v)
	out.WriteInt8(78)
	sized(out)
	i, r := in(out.Bytes(), chunk()*1000)
	x, err := i.ReadIntBytes()
	vrt.Assert((err == nil || len(v) == 0) && bytes.Equal(x, v), "counted bytes changed")
	z, err := i.ReadInt8()
	vrt.Assert(err == nil && z == 78, "counted bytes disturb their neighbours")
	done(r)
}

func H_Int32Array() {
	vrt.MustCover("done")
	n := vrt.Choose("n", 5)
	vrt.Bound("arrays of 0 to 4 arbitrary 32-bit values, and nil")
	var v []int32
	for k := 0; k < n; k++ {
		v = append(v, vrt.I32("v"))
	}
	out := netdata.NewDataOutputX(nil)
	out.WriteInt32Array(v)
	sized(out)
	i, r := in(out.Bytes(), chunk())
	c, err := i.ReadInt16()
	vrt.Assert(err == nil && int(c) == n, "array count")
	for k := 0; k < n; k++ {
		x, err := i.ReadInt32()
		vrt.Assert(err == nil && x == v[k], "array element changed")
	}
	done(r)
}

// H_Kept: what was read or written is not touched by what is read or written later.
func H_Kept() {
	vrt.Bound("blobs, strings and counted byte arrays of 3 to 300 bytes, three of them symbolic, each read before others; the written slice changed afterwards; two encoders and two decoders used in turn")
	n := []int{3, 64, 300}[vrt.Choose("n", 3)]
	b, c := content(n), content(n)
	out, two := netdata.NewDataOutputX(nil), netdata.NewDataOutputX(nil)
	put := func(o *netdata.DataOutputX, b []byte, k int) {
		switch k {
		case 0:
			o.WriteBlob(b)
		case 1:
			o.WriteString(string(b))
		case 2:
			o.WriteIntBytes(b)
		}
	}
	k, l := vrt.Choose("kind", 3), vrt.Choose("second", 3)
	given := append([]byte{}, b...)
	x, y := vrt.I64("x"), vrt.I64("y")
	put(out, given, k)
	two.WriteInt64(y)
	out.WriteInt64(x)
	for i := range given {
		given[i] = 0xEE
	}
	put(two, c, l)
	put(out, c, l)
	first := out.Bytes()
	i, r := in(append([]byte{}, first...), chunk())
	j, _ := in(append([]byte{}, two.Bytes()...), 0)
	get := func(i *netdata.DataInputX, k int) []byte {
		var v []byte
		var err error
		switch k {
		case 0:
			v, err = i.ReadBlob()
		case 1:
			var s string
			s, err = i.ReadString()
			v = []byte(s)
		case 2:
			v, err = i.ReadIntBytes()
		}
		vrt.Assert(err == nil, "reading back failed")
		return v
	}
	g := get(i, k)
	w, err := j.ReadInt64()
	vrt.Assert(err == nil && w == y, "a number changed on the way")
	v, err := i.ReadInt64()
	vrt.Assert(err == nil && v == x, "a number changed on the way")
	h := get(i, l)
	for at := range h {
		h[at] ^= 0xFF
	}
	e := get(j, l)
	vrt.Assert(string(g) == string(b), "what was read changed afterwards")
	vrt.Assert(string(e) == string(c), "what was read changed afterwards")
	done(r)
}

// H_Together: two goroutines encode and decode at the same time.
func H_Together() {
	vrt.Bound("two goroutines, each writing a decimal, a 32-bit number, a float and a 3-byte string and reading them back, all values; every statement of the encoder a possible switch, 1 (2) switches; data races")
	work := func(v int64, n int32, s string) func() {
		return func() {
			out := netdata.NewDataOutputX(nil)
			out.WriteDecimal(v)
			out.WriteInt32(n)
			out.WriteString(s)
			i := netdata.NewDataInputX(bytes.NewReader(out.Bytes()))
			x, e1 := i.ReadDecimal()
			y, e2 := i.ReadInt32()
			z, e3 := i.ReadString()
			vrt.Assert(e1 == nil && e2 == nil && e3 == nil, "reading back failed")
			vrt.Assert(vrt.And(x == v, vrt.And(y == n, z == s)), "values changed on the way when two goroutines encode")
		}
	}
	t := vrt.Spawn(work(vrt.I64("v"), vrt.I32("n"), vrt.String("s", 3)))
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	work(0x0102030405060708, 77, "abc")()
	vrt.Join(t)
	vrt.NoExplore()
}
