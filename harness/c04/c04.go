// Package c04: decoding any bytes at all ends, does not panic, does not allocate more than the input
// warrants, and notices when the input ends early.
package c04

import (
	"io"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type reader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

func setup() {
	vrt.MustTerminate(true)
	vrt.SetLimit(400000)
	vrt.MaxAlloc(70000)
	vrt.SizeBound(16)
}

func size(q, t int) int {
	if vrt.Thorough() {
		return t
	}
	return q
}

// ended: when decoding succeeded no more bytes were used than there are, and the encoding of what
// was read is not longer than what was there.
func ended(err error) {
	if err != nil {
		vrt.Cover("error")
	} else {
		vrt.Cover("ok")
	}
	vrt.ObsInt("err", vrt.Ite(err != nil, 1, 0))
}

func H_Primitives() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	setup()
	n := vrt.Choose("len", size(11, 13))
	vrt.Bound("every input of up to 10 bytes (thorough 12), every primitive reader")
	b := vrt.Bytes("in", n)
	r := &reader{b: b, chunk: vrt.Choose("chunk", 2)}
	in := nd.NewDataInputX(r)
	var err error
	switch vrt.Choose("op", 10) {
	case 0:
		_, err = in.ReadInt8()
		vrt.Assert((err == nil) == (n >= 1), "ReadInt8 does not notice the end")
	case 1:
		_, err = in.ReadInt16()
		vrt.Assert((err == nil) == (n >= 2), "ReadInt16 does not notice the end")
	case 2:
		_, err = in.ReadInt32()
		vrt.Assert((err == nil) == (n >= 4), "ReadInt32 does not notice the end")
	case 3:
		_, err = in.ReadInt64()
		vrt.Assert((err == nil) == (n >= 8), "ReadInt64 does not notice the end")
	case 4:
		_, err = in.ReadFloat32()
		vrt.Assert((err == nil) == (n >= 4), "ReadFloat32 does not notice the end")
	case 5:
		_, err = in.ReadFloat64()
		vrt.Assert((err == nil) == (n >= 8), "ReadFloat64 does not notice the end")
	case 6:
		_, err = in.ReadBoolean()
		vrt.Assert((err == nil) == (n >= 1), "ReadBoolean does not notice the end")
	case 7:
		_, err = in.ReadDecimal()
		if n == 0 {
			vrt.Assert(err != nil, "ReadDecimal does not notice the end")
		} else {
			w := int(b[0])
			vrt.Assert(!(w == 1 || w == 2 || w == 4 || w == 8) || (err == nil) == (n >= 1+w), "ReadDecimal does not notice the end")
			vrt.Assert(w != 0 || err == nil, "ReadDecimal of zero")
		}
	case 8:
		s, e := in.ReadBlob()
		err = e
		if n == 0 {
			vrt.Assert(err != nil, "ReadBlob does not notice the end")
		} else {
			blob(b, s, err)
		}
	case 9:
		s, e := in.ReadIntBytes()
		err = e
		if n < 4 {
			vrt.Assert(err != nil, "ReadIntBytes does not notice the end")
		} else {
			w := int64(int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])))
			vrt.Assert((err == nil) == vrt.And(w >= 0, w <= int64(n-4)), "ReadIntBytes does not notice a length that is not there")
			if err == nil {
				vrt.Assert(string(s) == string(b[4:4+len(s)]) && int64(len(s)) == w, "ReadIntBytes returns other bytes")
			}
		}
	}
	ended(err)
}

func blob(b, s []byte, err error) {
	n := len(b)
	h, w := 1, int64(b[0])
	switch b[0] {
	case 255:
		h = 3
		if n < 3 {
			vrt.Assert(err != nil, "ReadBlob does not notice the end of a length")
			return
		}
		w = int64(b[1])<<8 | int64(b[2])
	case 254:
		h = 5
		if n < 5 {
			vrt.Assert(err != nil, "ReadBlob does not notice the end of a length")
			return
		}
		w = int64(int32(uint32(b[1])<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])))
	}
	vrt.Assert((err == nil) == vrt.And(w >= 0, w <= int64(n-h)), "ReadBlob does not notice a length that is not there")
	if err == nil {
		vrt.Assert(int64(len(s)) == w && string(s) == string(b[h:h+len(s)]), "ReadBlob returns other bytes")
	}
}

func H_Value() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	setup()
	n := vrt.Choose("len", size(9, 12))
	vrt.Bound("every input of up to 8 bytes (thorough 11)")
	in := nd.NewDataInputX(vrt.Bytes("in", n))
	v, err := in.ReadValue()
	vrt.Assert(err != nil || v != nil, "no value and no error")
	vrt.Assert(n > 0 || err != nil, "a value out of nothing")
	ended(err)
}

// H_ValueKind directs the bytes to each value kind so that longer inputs are reached.
func H_ValueKind() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	setup()
	kinds := []byte{0, 10, 20, 30, 40, 50, 51, 60, 61, 70, 80, 45, 71, 255}
	n := vrt.Choose("len", size(8, 11))
	vrt.Bound("each value tag followed by every input of up to 7 bytes (thorough 10)")
	b := append([]byte{kinds[vrt.Choose("tag", len(kinds))]}, vrt.Bytes("in", n)...)
	v, err := nd.NewDataInputX(b).ReadValue()
	vrt.Assert(err != nil || v != nil, "no value and no error")
	ended(err)
}

func H_Pack() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	setup()
	n := vrt.Choose("len", size(9, 11))
	vrt.Bound("every input of up to 8 bytes (thorough 10)")
	p, err := nd.NewDataInputX(vrt.Bytes("in", n)).ReadPack()
	vrt.Assert(err != nil || p != nil, "no pack and no error")
	vrt.Assert(n > 0 || err != nil, "a pack out of nothing")
	ended(err)
}

// H_PackKind: fixed valid beginnings of each pack, arbitrary rest.
func H_PackKind() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	setup()
	heads := [][]byte{
		{10}, // map
		{10, 1, 1},
		{60, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1},    // perf counter up to its data
		{80, 0, 0, 0, 0, 0, 0, 1, 0, 0},       // object up to its tags
		{80, 0, 0, 0, 0, 0, 0, 1, 0, 0, 80, 1, 1}, // one tag
		{60, 0, 0, 0, 0, 0, 0, 0, 0},
		{70}, {50}, {21}, {65},
	}
	n := vrt.Choose("len", size(7, 9))
	vrt.Bound("ten beginnings of packs followed by every input of up to 6 bytes (thorough 8)")
	b := append(append([]byte{}, heads[vrt.Choose("head", len(heads))]...), vrt.Bytes("in", n)...)
	p, err := nd.NewDataInputX(&reader{b: b, chunk: vrt.Choose("chunk", 2)}).ReadPack()
	vrt.Assert(err != nil || p != nil, "no pack and no error")
	ended(err)
}

// H_DirectPacks: the packs that are not created by tag.
func H_DirectPacks() {
	vrt.MustCover("error")
	setup()
	n := vrt.Choose("len", size(9, 12))
	b := vrt.Bytes("in", n)
	pad := vrt.Choose("pad", 2) * 12
	vrt.Bound("object and kubernetes counter packs read from up to 12 zero bytes followed by every input of up to 8 bytes (thorough 11)")
	in := nd.NewDataInputX(append(make([]byte, pad), b...))
	var err error
	if vrt.Choose("which", 2) == 0 {
		_, err = nd.NewObjectPack().Read(in)
	} else {
		_, err = nd.NewPerfCounterK8SPack().Read(in)
	}
	ended(err)
}

// defined says whether a byte is the tag of a value.
func defined(t byte) bool {
	r := t == 0
	for _, k := range []byte{10, 20, 30, 40, 50, 51, 60, 61, 70, 80} {
		r = vrt.Or(r, t == k)
	}
	return r
}

// H_BadTag: a type tag that is not defined is an error, wherever it stands and whatever follows it.
func H_BadTag() {
	vrt.MustCover("error")
	setup()
	vrt.Bound("all 256 tags for an element of a list, map or map pack, first, in the middle or last, or nested in a list; zeros or eight arbitrary bytes after it")
	t := vrt.U8("tag")
	vrt.Assume(!defined(t))
	at := vrt.Choose("at", 3)
	kind := vrt.Choose("in", 4)
	var b []byte
	switch kind {
	case 0:
		b = []byte{70, 1, 3}
	case 1:
		b = []byte{80, 1, 3}
	case 2:
		b = []byte{10, 1, 3}
	case 3:
		b = []byte{70, 1, 1, 70, 1, 3}
	}
	for i := 0; i < 3; i++ {
		if kind == 1 || kind == 2 {
			b = append(b, 1, 'a'+byte(i))
		}
		if i == at {
			b = append(b, t)
		} else {
			b = append(b, 20, 1, byte(i))
		}
	}
	if vrt.Choose("tail", 2) == 0 {
		b = append(b, make([]byte, 40)...)
	} else {
		b = append(b, vrt.Bytes("tail", 8)...)
		b = append(b, make([]byte, 40)...)
	}
	in := nd.NewDataInputX(&reader{b: b, chunk: vrt.Choose("chunk", 2)})
	var err error
	if kind == 2 {
		_, err = in.ReadPack()
	} else {
		_, err = in.ReadValue()
	}
	vrt.Assert(err != nil, "an undefined type is decoded without an error")
	ended(err)
}

// H_NoMap: where an object or counter pack has its map, nothing but a map is accepted.
func H_NoMap() {
	vrt.MustCover("error")
	setup()
	vrt.Bound("object and counter packs with any of the 256 tags but the one of maps where their map belongs, zeros after it")
	t := vrt.U8("tag")
	vrt.Assume(t != 80)
	b := []byte{60, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}
	if vrt.Choose("which", 2) == 1 {
		b = []byte{80, 0, 0, 0, 0, 0, 0, 1, 0, 0}
	}
	b = append(append(b, t), make([]byte, 20)...)
	_, err := nd.NewDataInputX(&reader{b: b, chunk: vrt.Choose("chunk", 2)}).ReadPack()
	vrt.Assert(err != nil, "a pack without its map is decoded without an error")
	ended(err)
}

// sample is a valid encoding with symbolic contents.
func sample() []byte {
	out := nd.NewDataOutputX(nil)
	d := vrt.I64("d")
	switch vrt.Choose("sample", 7) {
	case 0:
		out.WriteValue(nd.NewListValue().AddInt64(d).AddString("abc").AddBoolean(true))
	case 1:
		m := nd.NewMapValue()
		m.Put("k", d)
		m.Put("z", nd.NewListValue().AddInt64(1))
		out.WriteValue(m)
	case 2:
		out.WriteValue(nd.NewTextValue("abcdef"))
	case 3:
		v := nd.NewIp4EmptyValue()
		v.Value = vrt.Bytes("ip", 4)
		out.WriteValue(v)
	case 4:
		v := nd.NewDoubleEmptyValue()
		out.WriteValue(v)
	case 5:
		v := nd.NewTextHashEmptyValue()
		v.Value = int32(d)
		out.WriteValue(v)
	case 6:
		v := nd.NewBlobEmptyValue()
		v.Value = make([]byte, 300)
		out.WriteValue(v)
	}
	return out.Bytes()
}

func cutAt(b []byte) []byte {
	if len(b) <= 40 {
		return b[:vrt.Choose("cut", len(b))]
	}
	return b[:[]int{0, 1, 2, 3, 4, 100, len(b) - 2, len(b) - 1}[vrt.Choose("cut", 8)]]
}

// nest is the encoding of n lists or maps, each the last element of the one before, and then of text.
type nest struct {
	head, level, tail []byte
	n, pos            int
}

func (r *nest) Read(p []byte) (int, error) {
	for i := range p {
		at := r.pos - len(r.head)
		switch {
		case at < 0:
			p[i] = r.head[r.pos]
		case at < r.n*len(r.level):
			p[i] = r.level[at%len(r.level)]
		case at < r.n*len(r.level)+len(r.tail):
			p[i] = r.tail[at-r.n*len(r.level)]
		default:
			if i == 0 {
				return 0, io.EOF
			}
			return i, nil
		}
		r.pos++
	}
	return len(p), nil
}

// H_Deep: however deep lists and maps are nested, decoding ends with a result or an error.
func H_Deep() {
	vrt.MustCover("error")
	vrt.MustCover("ok")
	vrt.MustTerminate(true)
	vrt.MaxCalls(30000)
	vrt.SetLimit(20000000)
	vrt.Bound("lists, maps and both in turn, nested 3, 500 or 6000000 deep, with any counts, alone and in map, object and counter packs, a symbolic value innermost; the stack holds 30000 calls (natively 1 GB)")
	n := []int{3, 500, 6000000}[vrt.Choose("depth", 3)]
	count := vrt.U8("count")
	if n < 1000 {
		count = 1
	} else {
		vrt.Assume(count > 0 && count < 128)
	}
	r := &nest{n: n, tail: []byte{20, 1, vrt.U8("v")}}
	r.level = [][]byte{{70, 1, count}, {80, 1, count, 1, 'k'}, {70, 1, count, 80, 1, count, 1, 'k'}}[vrt.Choose("level", 3)]
	if len(r.level) > 5 {
		r.n /= 2
	}
	in := nd.NewDataInputX(r)
	var err error
	switch vrt.Choose("in", 4) {
	case 0:
		_, err = in.ReadValue()
	case 1:
		r.head = []byte{10, 1, 1, 1, 'k'}
		_, err = in.ReadPack()
	case 2:
		r.head = []byte{60, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 80, 1, 1, 1, 'k'}
		_, err = in.ReadPack()
	case 3:
		r.head = []byte{80, 0, 0, 0, 0, 0, 0, 1, 0, 0, 80, 1, 1, 1, 'k'}
		_, err = in.ReadPack()
	}
	if n < 1000 {
		vrt.Assert(err == nil, "a nested value is not decoded")
	}
	ended(err)
}

// H_Truncated: an encoding that is cut short is never taken for a complete one.
func H_Truncated() {
	vrt.MustCover("error")
	setup()
	vrt.Bound("seven kinds of values with symbolic contents, cut at every place")
	b := cutAt(sample())
	_, err := nd.NewDataInputX(&reader{b: b, chunk: vrt.Choose("chunk", 2)}).ReadValue()
	vrt.Assert(err != nil, "a value that is cut short is decoded without an error")
	ended(err)
}

func H_TruncatedPack() {
	vrt.MustCover("error")
	setup()
	vrt.Bound("map, counter and object packs with symbolic contents, cut at every place")
	out := nd.NewDataOutputX(nil)
	d := vrt.I64("d")
	switch vrt.Choose("sample", 4) {
	case 0:
		p := nd.NewMapPack()
		p.Put("key", d)
		p.Put("s", "abc")
		out.WritePack(p)
	case 1:
		p := nd.NewPerfCounterPack()
		p.Time, p.ObjName = d, "obj"
		p.Put("a", d)
		out.WritePack(p)
	case 2:
		p := nd.NewObjectPack2()
		p.Wakeup, p.ObjName, p.Address = d, "o", "a"
		p.Tags.Put("t", "x")
		out.WritePack(p)
	case 3:
		p := nd.NewMapPack()
		p.NewList("l").AddInt64(d).AddInt64(7)
		out.WritePack(p)
	}
	b := cutAt(out.Bytes())
	_, err := nd.NewDataInputX(&reader{b: b, chunk: vrt.Choose("chunk", 2)}).ReadPack()
	vrt.Assert(err != nil, "a pack that is cut short is decoded without an error")
	ended(err)
}
