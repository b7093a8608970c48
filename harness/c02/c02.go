// Package c02: value trees and packs survive encoding and decoding.
package c02

import (
	"errors"
	"io"
	"math"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type reader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

// scalar makes a leaf value of the given kind with symbolic contents.
func scalar(kind int) nd.Value {
	switch kind {
	case 0:
		return nd.NewNilValue()
	case 1:
		return nd.NewBooleanValue(vrt.BoolV("b"))
	case 2:
		return nd.NewDecimalValue(vrt.I64("d"))
	case 3:
		return nd.NewFloatValue(math.Float32frombits(vrt.U32("f")))
	case 4:
		v := nd.NewDoubleEmptyValue()
		v.Value = math.Float64frombits(vrt.U64("g"))
		return v
	case 5:
		return nd.NewTextValue(vrt.StringUpTo("t", 2))
	case 6:
		v := nd.NewTextHashEmptyValue()
		v.Value = vrt.I32("h")
		return v
	case 7:
		v := nd.NewBlobEmptyValue()
		v.Value = vrt.BytesUpTo("o", 2)
		return v
	default:
		v := nd.NewIp4EmptyValue()
		v.Value = vrt.Bytes("ip", 4)
		return v
	}
}

const kinds = 9

// tree makes a value; containers hold up to width elements and nest up to depth.
func tree(depth, width int) nd.Value {
	k := kinds
	if depth > 0 {
		k += 2
	}
	c := vrt.Choose("kind", k)
	if c < kinds {
		return scalar(c)
	}
	n := vrt.Choose("n", width+1)
	if c == kinds {
		l := nd.NewListValue()
		for i := 0; i < n; i++ {
			l.Add(tree(depth-1, width))
		}
		return l
	}
	m := nd.NewMapValue()
	for i := 0; i < n; i++ {
		m.Put(vrt.String("key", i), tree(depth-1, width))
	}
	return m
}

func sameStr(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	return a == b
}

func same(a, b nd.Value) bool {
	if a.GetValueType() != b.GetValueType() {
		return false
	}
	switch x := a.(type) {
	case *nd.NilValue:
		_, ok := b.(*nd.NilValue)
		return ok
	case *nd.BooleanValue:
		y, ok := b.(*nd.BooleanValue)
		return ok && x.Value == y.Value
	case *nd.DecimalValue:
		y, ok := b.(*nd.DecimalValue)
		return ok && x.Value == y.Value
	case *nd.Float32Value:
		y, ok := b.(*nd.Float32Value)
		return ok && math.Float32bits(x.Value) == math.Float32bits(y.Value)
	case *nd.DoubleValue:
		y, ok := b.(*nd.DoubleValue)
		return ok && math.Float64bits(x.Value) == math.Float64bits(y.Value)
	case *nd.TextValue:
		y, ok := b.(*nd.TextValue)
		return ok && sameStr(x.Value, y.Value)
	case *nd.TextHashValue:
		y, ok := b.(*nd.TextHashValue)
		return ok && x.Value == y.Value
	case *nd.BlobValue:
		y, ok := b.(*nd.BlobValue)
		return ok && sameStr(string(x.Value), string(y.Value))
	case *nd.Ip4Value:
		y, ok := b.(*nd.Ip4Value)
		return ok && sameStr(string(x.Value), string(y.Value))
	case *nd.ListValue:
		y, ok := b.(*nd.ListValue)
		if !ok || len(x.Value) != len(y.Value) {
			return false
		}
		for i := range x.Value {
			if !same(x.Value[i], y.Value[i]) {
				return false
			}
		}
		return true
	case *nd.MapValue:
		y, ok := b.(*nd.MapValue)
		return ok && sameMap(x.Table, y.Table)
	}
	return false
}

func sameMap(x, y map[string]nd.Value) bool {
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		w, ok := y[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

func checkValue(v nd.Value) {
	out := nd.NewDataOutputX(nil)
	_, err := out.WriteValue(v)
	vrt.Assert(err == nil, "WriteValue failed")
	vrt.Assert(int(out.Size()) == len(out.Bytes()), "Size differs from the bytes written")
	r := &reader{b: out.Bytes(), chunk: vrt.Choose("chunk", 2)}
	w, err := nd.NewDataInputX(r).ReadValue()
	vrt.Assert(err == nil, "ReadValue failed on what WriteValue wrote")
	vrt.Assert(r.pos == len(r.b), "value bytes left over")
	vrt.Assert(same(v, w), "value changed on the way")
	vrt.Cover("round trip")
}

func H_Scalar() {
	vrt.MustCover("round trip")
	vrt.Bound("every scalar value kind, all contents (strings and blobs up to 2 bytes)")
	checkValue(scalar(vrt.Choose("kind", kinds)))
}

func H_Tree() {
	vrt.MustCover("round trip")
	d, w := 1, 2
	if vrt.Thorough() {
		d, w = 2, 2
	}
	vrt.Bound("lists and maps of up to 2 elements (quick: one level, thorough: two), all scalar contents symbolic")
	checkValue(tree(d, w))
}

// H_Nested covers nesting with few leaf kinds.
func H_Nested() {
	vrt.MustCover("round trip")
	vrt.Bound("lists and maps nested three deep around one decimal")
	var v nd.Value = nd.NewDecimalValue(vrt.I64("leaf"))
	for i := 0; i < 3; i++ {
		if vrt.Choose("wrap", 2) == 0 {
			v = nd.NewListValue().Add(v).AddInt64(vrt.I64("sib"))
		} else {
			m := nd.NewMapValue()
			m.Put("x", v)
			m.Put("y", vrt.String("s", 1))
			v = m
		}
	}
	checkValue(v)
}

// H_NoValue: an element that is no value at all (a nil interface) is written as a null.
func H_NoValue() {
	vrt.MustCover("round trip")
	vrt.Bound("a list, a map and a map pack of three elements, each of which is no value or a symbolic decimal")
	el := func() nd.Value {
		if vrt.Choose("nil", 2) == 1 {
			return nil
		}
		return nd.NewDecimalValue(vrt.I64("d"))
	}
	a, b, c := el(), el(), el()
	is := func(v, w nd.Value) bool {
		if v == nil {
			_, ok := w.(*nd.NilValue)
			return ok
		}
		return w != nil && same(v, w)
	}
	table := map[string]nd.Value{"a": a, "b": b, "c": c}
	sameTable := func(t map[string]nd.Value) bool {
		return len(t) == 3 && is(a, t["a"]) && is(b, t["b"]) && is(c, t["c"])
	}
	out := nd.NewDataOutputX(nil)
	r := &reader{chunk: vrt.Choose("chunk", 2)}
	switch vrt.Choose("in", 3) {
	case 0:
		out.WriteValue(nd.NewListValue().Add(a).Add(b).Add(c))
		r.b = out.Bytes()
		w, err := nd.NewDataInputX(r).ReadValue()
		l, ok := w.(*nd.ListValue)
		vrt.Assert(err == nil && ok && len(l.Value) == 3, "a list with nulls is not read back")
		vrt.Assert(is(a, l.Value[0]) && is(b, l.Value[1]) && is(c, l.Value[2]), "a list with nulls changed on the way")
	case 1:
		m := nd.NewMapValue()
		m.Table = table
		out.WriteValue(m)
		r.b = out.Bytes()
		w, err := nd.NewDataInputX(r).ReadValue()
		x, ok := w.(*nd.MapValue)
		vrt.Assert(err == nil && ok, "a map with nulls is not read back")
		vrt.Assert(sameTable(x.Table), "a map with nulls changed on the way")
	default:
		p := nd.NewMapPack()
		p.Table = table
		out.WritePack(p)
		r.b = out.Bytes()
		w, err := nd.NewDataInputX(r).ReadPack()
		x, ok := w.(*nd.MapPack)
		vrt.Assert(err == nil && ok, "a map pack with nulls is not read back")
		vrt.Assert(sameTable(x.Table), "a map pack with nulls changed on the way")
	}
	vrt.Assert(r.pos == len(r.b), "bytes left over")
	vrt.Cover("round trip")
}

// H_Wide covers element counts whose own encoding changes width.
func H_Wide() {
	vrt.MustCover("round trip")
	vrt.Bound("lists and maps of 0, 1, 127, 128, 129 and 300 elements")
	n := []int{0, 1, 127, 128, 129, 300}[vrt.Choose("count", 6)]
	sym := vrt.I8("v")
	if vrt.Choose("map", 2) == 0 {
		l := nd.NewListValue()
		for i := 0; i < n; i++ {
			l.AddInt64(int64(i))
		}
		if n > 0 {
			l.Value[n-1] = nd.NewDecimalValue(int64(sym))
		}
		checkValue(l)
		return
	}
	m := nd.NewMapValue()
	for i := 0; i < n; i++ {
		m.Put(string([]byte{byte('a' + i%20), byte('a' + i/20)}), int64(i))
	}
	if n > 0 {
		m.Put("aa", int64(sym))
	}
	checkValue(m)
}

// H_PutValue and the other Put harnesses: what the typed setters store is what the getters return
// after a trip over the wire.
func H_Put() {
	vrt.MustCover("kept")
	vrt.Bound("every setter type of MapValue, MapPack, PerfCounterPack and PerfCounterK8SPack, all values")
	n := vrt.I64("n")
	kind, to := vrt.Choose("kind", 11), vrt.Choose("container", 4)
	var any interface{}
	var want int64 = n
	switch kind {
	case 0:
		any = n
	case 1:
		any, want = int32(n), int64(int32(n))
	case 2:
		any, want = int(n), int64(int(n))
	case 3:
		any = "s" + vrt.StringUpTo("s", 2)
	case 4:
		any = n > 5
	case 5:
		any = math.Float32frombits(uint32(n))
	case 6:
		any = nd.Value(nd.NewDecimalValue(n))
	case 7:
		any, want = uint32(n), int64(uint32(n))
	case 8:
		any = uint64(n)
	case 9:
		any = uint(n)
	case 10:
		vrt.Assume(n>>23&255 != 255) // no NaN
		any = float64(math.Float32frombits(uint32(n)))
	}
	if kind > 6 {
		// what the setter of the container takes
		vrt.Assume(to == 1 && kind < 10 || to == 2 && kind != 9 || to == 3 && kind == 10)
	}
	var table map[string]nd.Value
	var get *nd.MapValue
	switch to {
	case 0:
		m := nd.NewMapValue()
		m.Put("k", any)
		out := nd.NewDataOutputX(nil)
		out.WriteValue(m)
		v, err := nd.NewDataInputX(out.Bytes()).ReadValue()
		vrt.Assert(err == nil, "read failed")
		get = v.(*nd.MapValue)
	case 1:
		m := nd.NewMapPack()
		m.Put("k", any)
		out := nd.NewDataOutputX(nil)
		out.WritePack(m)
		v, err := nd.NewDataInputX(out.Bytes()).ReadPack()
		vrt.Assert(err == nil, "read failed")
		q := v.(*nd.MapPack)
		switch kind {
		case 3:
			vrt.Assert(q.GetString("k") == any.(string), "MapPack string setter")
		case 4:
			vrt.Assert(q.GetBoolean("k") == any.(bool), "MapPack bool setter")
		case 5, 10:
		default:
			vrt.Assert(q.GetInt64("k") == want, "MapPack integer setter")
			vrt.Assert(q.GetInt32("k") == int32(want), "MapPack integer setter")
			vrt.Assert(q.GetInt16("k") == int16(want), "MapPack integer setter")
			vrt.Assert(q.GetInt8("k") == int8(want), "MapPack integer setter")
		}
		get = nd.NewMapValue()
		get.Table = q.Table
	case 2:
		m := nd.NewPerfCounterPack()
		m.Put("k", any)
		out := nd.NewDataOutputX(nil)
		out.WritePack(m)
		v, err := nd.NewDataInputX(out.Bytes()).ReadPack()
		vrt.Assert(err == nil, "read failed")
		get = v.(*nd.PerfCounterPack).Data
	case 3:
		vrt.Assume(kind != 6)
		m := nd.NewPerfCounterK8SPack()
		m.Put("k", any)
		out := nd.NewDataOutputX(nil)
		vrt.Assert(m.Write(out) == nil, "write failed")
		v, err := nd.NewPerfCounterK8SPack().Read(nd.NewDataInputX(out.Bytes()))
		vrt.Assert(err == nil, "read failed")
		get = v.(*nd.PerfCounterK8SPack).Data
	}
	table = get.Table
	vrt.Assert(len(table) == 1, "one entry")
	vrt.Assert(get.ContainesKey("k"), "the key is lost")
	switch kind {
	case 3:
		vrt.Assert(get.GetString("k") == any.(string), "string setter")
	case 4:
		vrt.Assert(get.GetBoolean("k") == any.(bool), "bool setter")
	case 5, 10:
		f, ok := table["k"].(*nd.Float32Value)
		vrt.Assert(ok && math.Float32bits(f.Value) == uint32(n), "float setter")
	default:
		vrt.Assert(get.GetInt64("k") == want, "integer setter")
		vrt.Assert(get.GetInt32("k") == int32(want), "integer setter")
		vrt.Assert(get.GetInt16("k") == int16(want), "integer setter")
		vrt.Assert(get.GetInt8("k") == int8(want), "integer setter")
	}
	vrt.Cover("kept")
}

// H_Lists: what is added to a list is what its getters return, after a trip over the wire.
func H_Lists() {
	vrt.Bound("all lists of up to 4 values of the five kinds, all 32-bit and 64-bit numbers, texts of one byte; every getter on every element")
	n := vrt.Choose("n", 5)
	l := nd.NewListValue()
	if vrt.Choose("with", 2) == 1 {
		l = nd.NewListValueWithValue(nil)
	}
	var kinds []int
	var nums []int64
	var texts []string
	x := vrt.I64("x")
	for i := 0; i < n; i++ {
		k := vrt.Choose("kind", 5)
		v, s := int64(i)+7, str("s")
		if i == n-1 {
			v = x
		}
		var r *nd.ListValue
		switch k {
		case 0:
			r = l.AddInt64(v)
		case 1:
			v = int64(int32(v))
			r = l.AddInt32(int32(v))
		case 2:
			v = int64(uint32(v))
			r = l.AddFloat(math.Float32frombits(uint32(v)))
		case 3:
			r = l.AddString(s)
		case 4:
			v &= 1
			r = l.AddBoolean(v == 1)
		}
		vrt.Assert(r == l, "adding to a list does not return it")
		kinds, nums, texts = append(kinds, k), append(nums, v), append(texts, s)
	}
	check := func(l *nd.ListValue) {
		vrt.Assert(l.Size() == n, "a list has another size")
		for i, k := range kinds {
			num, s, f, b := int64(0), "", uint32(0), int64(0)
			switch k {
			case 0, 1:
				num = nums[i]
			case 2:
				f = uint32(nums[i])
			case 3:
				s = texts[i]
			case 4:
				b = nums[i]
			}
			vrt.Assert(l.GetInt64(i) == num, "the number of an element is not what was added")
			vrt.Assert(l.GetInt32(i) == int32(num), "the number of an element is not what was added")
			vrt.Assert(l.GetString(i) == s, "the text of an element is not what was added")
			vrt.Assert(math.Float32bits(l.GetFloat(i)) == f, "the float of an element is not what was added")
			vrt.Assert(l.GetBoolean(i) == (b == 1), "the flag of an element is not what was added")
		}
	}
	check(l)
	out := nd.NewDataOutputX(nil)
	out.WriteValue(l)
	v, err := nd.NewDataInputX(out.Bytes()).ReadValue()
	vrt.Assert(err == nil, "read failed")
	got, ok := v.(*nd.ListValue)
	vrt.Assert(ok, "a list is not read as one")
	check(got)
}

// H_Getters: each getter on each kind of value, present or not.
func H_Getters() {
	vrt.Bound("map values and map packs with one entry of each kind of setter, any number and text of one byte; each getter for its key and for any other key of one byte")
	x := vrt.I64("x")
	s := str("s")
	kind := vrt.Choose("kind", 9)
	want := x
	var any interface{}
	switch kind {
	case 0:
		any = x
	case 1:
		any, want = int32(x), int64(int32(x))
	case 2:
		any = int(x)
	case 3:
		any = s
	case 4:
		any = x&1 == 1
	case 5:
		any = math.Float32frombits(uint32(x))
	case 6:
		any, want = uint32(x), int64(uint32(x))
	case 7:
		any, want = uint64(x), x
	case 8:
		any, want = uint(x), x
	}
	key := vrt.String("key", 1)
	number := kind < 3 || kind > 5
	same := vrt.And(key == "k", number)
	num := vrt.Ite(same, want, 0)
	text := kind == 3 && key == "k"
	flag := vrt.And(kind == 4, vrt.And(key == "k", x&1 == 1))
	m, p := nd.NewMapValue(), nd.NewMapPack()
	vrt.Assert(m.IsEmpty() && p.IsEmpty(), "a new map is not empty")
	p.Put("k", any)
	vrt.Assert(!p.IsEmpty() && p.ContainsKey(key) == (key == "k"), "a map does not tell whether it has a key")
	vrt.Assert(p.GetInt64(key) == num && p.GetInt32(key) == int32(num) && p.GetInt16(key) == int16(num) && p.GetInt8(key) == int8(num), "a map pack returns another number")
	vrt.Assert(p.GetBoolean(key) == flag, "a map pack returns another flag")
	if text {
		vrt.Assert(p.GetString(key) == s, "a map pack returns another text")
	} else {
		vrt.Assert(p.GetString(key) == "", "a map pack returns a text it does not have")
	}
	if kind < 6 {
		m.Put("k", any)
		vrt.Assert(!m.IsEmpty() && m.ContainesKey(key) == (key == "k"), "a map does not tell whether it has a key")
		vrt.Assert(m.GetInt64(key) == num && m.GetInt32(key) == int32(num) && m.GetInt16(key) == int16(num) && m.GetInt8(key) == int8(num), "a map returns another number")
		vrt.Assert(m.GetBoolean(key) == flag, "a map returns another flag")
		if text {
			vrt.Assert(m.GetString(key) == s, "a map returns another text")
		} else {
			vrt.Assert(m.GetString(key) == "", "a map returns a text it does not have")
		}
	}
	l := p.NewList("list")
	l.AddInt64(x)
	vrt.Assert(p.ContainsKey("list") && p.Table["list"].(*nd.ListValue).GetInt64(0) == x, "a list of a map pack is not in it")
}

func str(name string) string { return vrt.String(name, 1) }

func H_PerfCounter() {
	vrt.MustCover("round trip")
	vrt.Bound("all field values, one-byte strings, two counters")
	p := nd.NewPerfCounterPack()
	p.Time, p.ObjName, p.Timetype = vrt.I64("time"), vrt.StringUpTo("obj", 1), vrt.I8("tt")
	p.Put("c", vrt.I64("c"))
	p.Put("d", str("d"))
	out := nd.NewDataOutputX(nil)
	_, err := out.WritePack(p)
	vrt.Assert(err == nil, "WritePack failed")
	r := &reader{b: out.Bytes(), chunk: vrt.Choose("chunk", 2)}
	v, err := nd.NewDataInputX(r).ReadPack()
	vrt.Assert(err == nil && r.pos == len(r.b), "ReadPack failed or left bytes")
	q, ok := v.(*nd.PerfCounterPack)
	vrt.Assert(ok, "pack type changed")
	vrt.Assert(q.Time == p.Time, "time changed")
	vrt.Assert(q.ObjName == p.ObjName, "object name changed")
	vrt.Assert(q.Timetype == p.Timetype, "time type changed")
	vrt.Assert(same(p.Data, q.Data), "counters changed")
	vrt.Cover("round trip")
}

func H_PerfCounterK8S() {
	vrt.MustCover("round trip")
	vrt.Bound("all field values, one-byte strings, one counter")
	p := nd.NewPerfCounterK8SPack()
	p.Time, p.SiteID, p.Cluster, p.NameSpace, p.NodeName = vrt.I64("time"), str("site"), str("cl"), str("ns"), str("no")
	p.DaemonSetName, p.DeploymentName, p.PodName, p.ContainerName, p.ObjName = str("da"), str("de"), str("po"), str("co"), str("ob")
	p.Timetype, p.MetricLevel = vrt.I8("tt"), vrt.I8("ml")
	p.Put("c", vrt.I64("c"))
	out := nd.NewDataOutputX(nil)
	vrt.Assert(p.Write(out) == nil, "Write failed")
	r := &reader{b: out.Bytes()}
	q := nd.NewPerfCounterK8SPack()
	_, err := q.Read(nd.NewDataInputX(r))
	vrt.Assert(err == nil && r.pos == len(r.b), "Read failed or left bytes")
	vrt.Assert(q.Time == p.Time && q.SiteID == p.SiteID && q.Cluster == p.Cluster && q.NameSpace == p.NameSpace && q.NodeName == p.NodeName, "fields changed")
	vrt.Assert(q.DaemonSetName == p.DaemonSetName && q.DeploymentName == p.DeploymentName && q.PodName == p.PodName && q.ContainerName == p.ContainerName && q.ObjName == p.ObjName, "names changed")
	vrt.Assert(q.Timetype == p.Timetype && q.MetricLevel == p.MetricLevel, "levels changed")
	vrt.Assert(same(p.Data, q.Data), "counters changed")
	vrt.Cover("round trip")
}

func H_Object() {
	vrt.MustCover("round trip")
	vrt.Bound("all field values of both object packs, one-byte strings, one tag and a status")
	hash, wake, alive, status := vrt.I32("hash"), vrt.I64("wake"), vrt.BoolV("alive"), int(vrt.I32("status"))
	ty, name, addr, ver := str("type"), str("name"), str("addr"), str("ver")
	out := nd.NewDataOutputX(nil)
	if vrt.Choose("pack2", 2) == 0 {
		p := nd.NewObjectPack()
		p.ObjHash, p.Wakeup, p.Alive, p.ObjType, p.ObjName, p.Address, p.Version = hash, wake, alive, ty, name, addr, ver
		p.Tags.Put("tag", str("tag"))
		p.SetStatus(status)
		vrt.Assert(p.Write(out) == nil, "Write failed")
		r := &reader{b: out.Bytes()}
		q := nd.NewObjectPack()
		_, err := q.Read(nd.NewDataInputX(r))
		vrt.Assert(err == nil && r.pos == len(r.b), "Read failed or left bytes")
		vrt.Assert(q.ObjHash == hash && q.Wakeup == wake && q.Alive == alive, "numbers changed")
		vrt.Assert(q.ObjType == ty && q.ObjName == name && q.Address == addr && q.Version == ver, "names changed")
		vrt.Assert(same(p.Tags, q.Tags), "tags changed")
		vrt.Assert(q.Tags.GetInt64("status") == int64(status), "status lost")
		vrt.Cover("round trip")
		return
	}
	p := nd.NewObjectPack2()
	p.ObjHash, p.Wakeup, p.Alive, p.ObjType, p.ObjName, p.Address, p.Version = hash, wake, alive, ty, name, addr, ver
	p.SiteID, p.Family = str("site"), vrt.I8("family")
	p.SetStatus(status)
	out.WritePack(p)
	r := &reader{b: out.Bytes()}
	v, err := nd.NewDataInputX(r).ReadPack()
	vrt.Assert(err == nil && r.pos == len(r.b), "ReadPack failed or left bytes")
	q, ok := v.(*nd.ObjectPack2)
	vrt.Assert(ok, "pack type changed")
	vrt.Assert(q.ObjHash == hash && q.Wakeup == wake && q.Alive == alive && q.Family == p.Family, "numbers changed")
	vrt.Assert(q.ObjType == ty && q.ObjName == name && q.Address == addr && q.Version == ver && q.SiteID == p.SiteID, "names changed")
	vrt.Assert(q.Tags.GetInt64("status") == int64(status), "status lost")
	vrt.Cover("round trip")
}

func H_MapPack() {
	vrt.MustCover("round trip")
	vrt.Bound("map packs of up to 2 entries holding one-level values")
	p := nd.NewMapPack()
	n := vrt.Choose("n", 3)
	for i := 0; i < n; i++ {
		p.Put(vrt.String("key", 1), scalar(vrt.Choose("kind", kinds)))
	}
	if vrt.Choose("list", 2) == 1 {
		p.NewList("ll").AddInt32(vrt.I32("e")).AddString(str("f")).AddBoolean(vrt.BoolV("g")).AddFloat(math.Float32frombits(vrt.U32("h")))
	}
	out := nd.NewDataOutputX(nil)
	_, err := out.WritePack(p)
	vrt.Assert(err == nil, "WritePack failed")
	r := &reader{b: out.Bytes(), chunk: vrt.Choose("chunk", 2)}
	v, err := nd.NewDataInputX(r).ReadPack()
	vrt.Assert(err == nil && r.pos == len(r.b), "ReadPack failed or left bytes")
	q, ok := v.(*nd.MapPack)
	vrt.Assert(ok, "pack type changed")
	vrt.Assert(sameMap(p.Table, q.Table), "entries changed")
	vrt.Cover("round trip")
}

// failing accepts left bytes and then fails for good.
type failing struct {
	left int
	lost bool
}

var errDisk = errors.New("disk full")

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		f.lost = true
		n := f.left
		f.left = 0
		return n, errDisk
	}
	f.left -= len(p)
	return len(p), nil
}

// H_WriteFault: an encoder whose stream fails says so.
func H_WriteFault() {
	vrt.MustCover("failed")
	vrt.MustCover("complete")
	vrt.Bound("every scalar, a list, a map, three packs, a stream that fails after any number of bytes up to 40")
	f := &failing{left: vrt.Choose("left", 41)}
	out := nd.NewDataOutputX(f)
	var err error
	switch c := vrt.Choose("what", kinds+4); c {
	case kinds:
		_, err = out.WriteValue(nd.NewListValue().AddInt64(vrt.I64("d")).AddString("ab"))
	case kinds + 1:
		m := nd.NewMapValue()
		m.Put("k", vrt.I64("d"))
		_, err = out.WriteValue(m)
	case kinds + 2:
		p := nd.NewPerfCounterPack()
		p.Put("k", vrt.I64("d"))
		_, err = out.WritePack(p)
	case kinds + 3:
		p := nd.NewObjectPack2()
		p.ObjName = "n"
		_, err = out.WritePack(p)
	default:
		_, err = out.WriteValue(scalar(c))
	}
	if f.lost {
		vrt.Cover("failed")
		vrt.Assert(err != nil, "a failed write was reported as a success")
	} else {
		vrt.Cover("complete")
		vrt.Assert(err == nil, "an error without a failure")
	}
}
