// Package c03: what the agent sends has the collector's wire layout.
package c03

import (
	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt common/netdata

// fields gives every field of a pack its own value, or (bare) leaves it zero or empty; the chosen one (and
// in the thorough tier another one) is symbolic.
type fields struct {
	n, pick, pick2 int
	bare           bool
}

func newFields(total int) *fields {
	f := &fields{pick: vrt.Choose("field", total), pick2: -1, bare: vrt.Choose("bare", 2) == 1}
	if vrt.Thorough() {
		f.pick2 = vrt.Choose("field2", total)
	}
	return f
}

func (f *fields) sym() (bool, int) {
	f.n++
	return f.n-1 == f.pick || f.n-1 == f.pick2, f.n - 1
}

func (f *fields) i32() int32 {
	s, k := f.sym()
	if s {
		return vrt.I32("i32")
	}
	if f.bare {
		return 0
	}
	return int32(1000 + 7*k)
}

func (f *fields) i64() int64 {
	s, k := f.sym()
	if s {
		return vrt.I64("i64")
	}
	if f.bare {
		return 0
	}
	return int64(1<<40) + int64(k)
}

func (f *fields) u8() byte {
	s, k := f.sym()
	if s {
		return vrt.U8("u8")
	}
	if f.bare {
		return 0
	}
	return byte(40 + k)
}

func (f *fields) boolean() bool {
	s, k := f.sym()
	if s {
		return vrt.BoolV("bool")
	}
	if f.bare {
		return false
	}
	return k%2 == 0
}

func (f *fields) str() string {
	s, k := f.sym()
	if s {
		return vrt.StringUpTo("str", 3)
	}
	if f.bare {
		return ""
	}
	return "s" + string([]byte{byte('A' + k%26), byte('a' + k/26)})
}

func encode(p nd.Pack) *hcommon.Pack {
	out := nd.NewDataOutputX(nil)
	_, err := out.WritePack(p)
	vrt.Assert(err == nil, "WritePack failed")
	vrt.Assert(int(out.Size()) == len(out.Bytes()), "Size differs from the bytes written")
	if _, ok := p.(*nd.PerfCounterPack); !ok { // the order of map entries is not fixed
		vrt.ObsStr("wire", string(out.Bytes()))
	}
	return hcommon.OnePack(out.Bytes())
}

func eq(ok bool, what string) { vrt.Assert(ok, "field differs on the wire: "+what) }

func H_Xlog() {
	vrt.MustCover("decoded")
	vrt.Bound("all values of each of the 44 fields in turn (thorough: of each pair), the others distinct or all zero, strings of up to 3 bytes")
	f := newFields(44)
	p := nd.NewXlogPack()
	p.EndTime, p.ObjHash, p.Service = f.i64(), f.i32(), f.i32()
	p.Txid, p.Caller, p.Gxid = f.i64(), f.i64(), f.i64()
	p.Elapsed, p.Error, p.Cpu, p.SqlCount, p.SqlTime = f.i32(), f.i32(), f.i32(), f.i32(), f.i32()
	p.Ipaddr = []byte(f.str())
	p.Kbytes, p.Status, p.Userid = f.i32(), f.i32(), f.i64()
	p.UserAgent, p.Referer, p.Group, p.ApicallCount, p.ApicallTime = f.i32(), f.i32(), f.i32(), f.i32(), f.i32()
	p.CountryCode, p.City, p.XType = f.str(), f.i32(), nd.XlogType(f.u8())
	p.Login, p.Desc, p.WebHash, p.WebTime, p.HasDump, p.ThreadNameHash = f.i32(), f.i32(), f.i32(), f.i32(), f.u8(), f.i32()
	p.Text1, p.Text2 = f.str(), f.str()
	p.QueuingHostHash, p.QueuingTime, p.Queuing2ndHostHash, p.Queuing2ndTime = f.i32(), f.i32(), f.i32(), f.i32()
	p.Text3, p.Text4, p.Text5 = f.str(), f.str(), f.str()
	p.ProfileCount, p.B3Mode, p.ProfileSize, p.DiscardType, p.IgnoreGlobalConsequentSampling = f.i32(), f.boolean(), f.i32(), nd.XlogDiscardType(f.u8()), f.boolean()
	q := encode(p)
	eq(q.Tag == 21, "pack tag")
	x := q.Xlog
	eq(x.EndTime == p.EndTime, "end time")
	eq(x.ObjHash == p.ObjHash, "object")
	eq(x.Service == p.Service, "service")
	eq(x.Txid == p.Txid, "txid")
	eq(x.Caller == p.Caller, "caller")
	eq(x.Gxid == p.Gxid, "gxid")
	eq(x.Elapsed == p.Elapsed, "elapsed")
	eq(x.Error == p.Error, "error")
	eq(x.Cpu == p.Cpu, "cpu")
	eq(x.SqlCount == p.SqlCount, "sql count")
	eq(x.SqlTime == p.SqlTime, "sql time")
	eq(x.Ipaddr == string(p.Ipaddr), "ip address")
	eq(x.Kbytes == p.Kbytes, "kbytes")
	eq(x.Status == p.Status, "status")
	eq(x.Userid == p.Userid, "user id")
	eq(x.UserAgent == p.UserAgent, "user agent")
	eq(x.Referer == p.Referer, "referer")
	eq(x.Group == p.Group, "group")
	eq(x.ApicallCount == p.ApicallCount, "api call count")
	eq(x.ApicallTime == p.ApicallTime, "api call time")
	eq(x.CountryCode == p.CountryCode, "country")
	eq(x.City == p.City, "city")
	eq(x.XType == byte(p.XType), "type")
	eq(x.Login == p.Login, "login")
	eq(x.Desc == p.Desc, "desc")
	eq(x.WebHash == p.WebHash, "web hash")
	eq(x.WebTime == p.WebTime, "web time")
	eq(x.HasDump == p.HasDump, "has dump")
	eq(x.ThreadName == p.ThreadNameHash, "thread name")
	eq(x.Text1 == p.Text1, "text1")
	eq(x.Text2 == p.Text2, "text2")
	eq(x.QHost == p.QueuingHostHash, "queuing host")
	eq(x.QTime == p.QueuingTime, "queuing time")
	eq(x.Q2Host == p.Queuing2ndHostHash, "second queuing host")
	eq(x.Q2Time == p.Queuing2ndTime, "second queuing time")
	eq(x.Text3 == p.Text3, "text3")
	eq(x.Text4 == p.Text4, "text4")
	eq(x.Text5 == p.Text5, "text5")
	eq(x.ProfileCount == p.ProfileCount, "profile count")
	eq(x.B3 == p.B3Mode, "b3 mode")
	eq(x.ProfileSize == p.ProfileSize, "profile size")
	eq(x.Discard == byte(p.DiscardType), "discard type")
	eq(x.IgnoreGlobal == p.IgnoreGlobalConsequentSampling, "ignore global sampling")
	vrt.Assert(p.IsDriving() == (p.Gxid == p.Txid || p.Gxid == 0), "driving service")
	vrt.Cover("decoded")
}

func H_Profile() {
	vrt.MustCover("decoded")
	vrt.Bound("all values of each field in turn, the others distinct or all zero; profile bytes of two steps")
	f := newFields(6)
	p := nd.NewXlogProfilePack()
	p.Time, p.ObjHash, p.Service, p.Txid = f.i64(), f.i32(), f.i32(), f.i64()
	m := nd.NewMethodStep()
	m.Hash = f.i32()
	p.Elapsed = 55
	p.Profile = nd.StepsToBytes([]nd.Step{m, nd.NewMessageStep(f.str(), 3)})
	q := encode(p)
	eq(q.Tag == 26, "pack tag")
	x := q.Profile
	eq(x.Time == p.Time, "time")
	eq(x.ObjHash == p.ObjHash, "object")
	eq(x.Service == p.Service, "service")
	eq(x.Txid == p.Txid, "txid")
	eq(len(x.Steps) == 2 && x.Steps[0].Hash == m.Hash && x.Steps[1].Start == 3, "steps")
	vrt.Cover("decoded")
}

func H_Text() {
	vrt.MustCover("decoded")
	vrt.Bound("all hashes, texts of up to 3 bytes, every text kind")
	kinds := []texttype.TextType{texttype.ERROR, texttype.APICALL, texttype.METHOD, texttype.SERVICE, texttype.SQL, texttype.OBJECT, texttype.REFERER, texttype.USER_AGENT, texttype.GROUP, texttype.LOGIN, texttype.DESC, texttype.WEB, texttype.HASH_MSG, texttype.STACK_ELEMENT}
	names := []string{"error", "apicall", "method", "service", "sql", "object", "referer", "ua", "group", "login", "desc", "web", "hmsg", "stackelem"}
	k := vrt.Choose("kind", len(kinds))
	p := nd.NewTextPack()
	p.Xtype, p.Hash, p.Text = kinds[k], vrt.I32("hash"), vrt.StringUpTo("text", 3)
	q := encode(p)
	eq(q.Tag == 50 && q.Xtype == names[k], "text kind")
	eq(q.Hash == p.Hash, "hash")
	eq(q.Text == p.Text, "text")
	vrt.Cover("decoded")
}

func H_Alert() {
	vrt.MustCover("decoded")
	vrt.Bound("all values of each field in turn, the others distinct or all zero; strings of up to 3 bytes")
	f := newFields(7)
	p := nd.NewAlertPack()
	p.Time, p.ObjType, p.ObjHash, p.Level, p.Title, p.Message = f.i64(), f.str(), f.i32(), nd.AlertLevel(f.u8()), f.str(), f.str()
	tag := f.i64()
	p.Tags.Put("k", tag)
	q := encode(p)
	eq(q.Tag == 70, "pack tag")
	eq(q.Time == p.Time, "time")
	eq(q.ObjType == p.ObjType, "object type")
	eq(q.Hash == p.ObjHash, "object hash")
	eq(q.Level == byte(p.Level), "level")
	eq(q.Title == p.Title, "title")
	eq(q.Message == p.Message, "message")
	v := q.Data.Get("k")
	eq(v != nil && v.Tag == 20 && v.N == tag, "tag")
	vrt.Cover("decoded")
}

func H_Object() {
	vrt.MustCover("decoded")
	vrt.Bound("all values of each field in turn, the others distinct or all zero; strings of up to 3 bytes")
	f := newFields(8)
	p := nd.NewObjectPack()
	p.ObjType, p.ObjHash, p.ObjName, p.Address, p.Version = f.str(), f.i32(), f.str(), f.str(), f.str()
	p.Alive, p.Wakeup = f.boolean(), f.i64()
	tag := f.str()
	p.Tags.Put("k", tag)
	q := encode(p)
	eq(q.Tag == 80, "pack tag")
	eq(q.ObjType == p.ObjType, "type")
	eq(q.Hash == p.ObjHash, "hash")
	eq(q.ObjName == p.ObjName, "name")
	eq(q.Address == p.Address, "address")
	eq(q.Version == p.Version, "version")
	eq(q.Alive == p.Alive, "alive")
	eq(q.Time == p.Wakeup, "wakeup")
	v := q.Data.Get("k")
	eq(v != nil && v.Tag == 50 && v.S == tag, "tag")
	vrt.Cover("decoded")
}

func H_Counter() {
	vrt.MustCover("decoded")
	vrt.Bound("all values of each field in turn, the others distinct or all zero; counters of every setter type")
	f := newFields(10)
	p := nd.NewPerfCounterPack()
	p.Time, p.ObjName, p.Timetype = f.i64(), f.str(), int8(f.u8())
	a, b, c, d := f.i64(), f.i32(), f.boolean(), f.str()
	g, h, u := f.i32(), int(f.i64()), uint32(f.i32())
	p.Put("a", a)
	p.Put("b", b)
	p.Put("c", c)
	p.Put("d", d)
	p.Put("f", float32(2.5))
	p.Put("g", float64(-1.25))
	p.Put("h", h)
	p.Put("u", u)
	p.Put("w", uint64(g))
	q := encode(p)
	eq(q.Tag == 60, "pack tag")
	eq(q.Time == p.Time, "time")
	eq(q.ObjName == p.ObjName, "object name")
	eq(q.TimeType == p.Timetype, "time type")
	eq(q.Data.Tag == 80 && len(q.Data.Keys) == 9, "counter map")
	num := func(k string, want int64) {
		v := q.Data.Get(k)
		eq(v != nil && v.Tag == 20 && v.N == want, "counter "+k)
	}
	num("a", a)
	num("b", int64(b))
	num("h", int64(h))
	num("u", int64(u))
	num("w", int64(uint64(g)))
	v := q.Data.Get("c")
	eq(v != nil && v.Tag == 10 && v.B == c, "boolean counter")
	v = q.Data.Get("d")
	eq(v != nil && v.Tag == 50 && v.S == d, "text counter")
	v = q.Data.Get("f")
	eq(v != nil && v.Tag == 30 && v.Float() == 2.5, "float counter")
	v = q.Data.Get("g")
	eq(v != nil && v.Tag == 30 && v.Float() == -1.25, "double counter")
	vrt.Cover("decoded")
}

func single(f *fields, s nd.Step) (int32, int32) {
	p, i := f.i32(), f.i32()
	s.SetParent(p)
	s.SetIndex(i)
	vrt.Assert(s.GetParent() == p && s.GetOrder() == i, "parent and index of a step")
	return p, i
}

const stepKinds = 7

// some makes a pack or the bytes of a step for H_Kept and H_Together.
func some(kind int, n int32) func() []byte {
	var p nd.Pack
	switch kind {
	case 0:
		x := nd.NewXlogPack()
		x.Txid, x.Service, x.Text1, x.Elapsed = int64(n), n, "t", n
		p = x
	case 1:
		x := nd.NewXlogProfilePack()
		x.Txid, x.Service, x.Profile = int64(n), n, []byte{1, 2, byte(n)}
		p = x
	case 2:
		x := nd.NewTextPack()
		x.Xtype, x.Hash, x.Text = texttype.SERVICE, n, "text"
		p = x
	case 3:
		x := nd.NewAlertPack()
		x.ObjHash, x.Title, x.Message = n, "title", "message"
		p = x
	case 4:
		x := nd.NewPerfCounterPack()
		x.ObjName = "o"
		x.Put("a", n)
		p = x
	case 5:
		x := nd.NewApiCallStep()
		x.StartTime, x.Hash, x.Opt, x.Address = n, n, 1, "a"
		y := nd.NewMessageStep("m", n)
		return func() []byte { return nd.StepsToBytes([]nd.Step{x, y}) }
	}
	return func() []byte {
		out := nd.NewDataOutputX(nil)
		_, err := out.WritePack(p)
		vrt.Assert(err == nil, "WritePack failed")
		return out.Bytes()
	}
}

// H_Kept: an encoding stays as it is when others are made, and is made again alike.
func H_Kept() {
	vrt.Bound("every pair of an xlog, profile, text, alert and counter pack and two steps, each with one symbolic number")
	a, b := some(vrt.Choose("first", 6), vrt.I32("n")), some(vrt.Choose("second", 6), vrt.I32("m"))
	x := a()
	before := string(x)
	y := b()
	vrt.Assert(string(x) == before, "an encoding changes when another is made")
	last := string(y)
	vrt.Assert(string(a()) == before, "a pack is encoded differently the second time")
	vrt.Assert(string(y) == last && string(x) == before, "an encoding changes when another is made")
}

// H_Together: two goroutines encode at the same time.
func H_Together() {
	vrt.Bound("every pair of an xlog, profile, text, alert and counter pack and two steps encoded by two goroutines, every statement of the encoder a possible switch, 1 (2) switches; data races")
	i := vrt.Choose("first", 6)
	j := (i + vrt.Choose("second", 6-i)) % 6
	a, b := some(i, 1000), some(j, 70000)
	x, y := string(a()), string(b())
	t := vrt.Spawn(func() { vrt.Assert(string(a()) == x, "an encoding differs when two goroutines encode") })
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	vrt.Assert(string(b()) == y, "an encoding differs when two goroutines encode")
	vrt.Join(t)
	vrt.NoExplore()
}

// step makes a step of a kind and its expected decoding.
func step(f *fields, kind int) (nd.Step, hcommon.Step) {
	w := hcommon.Step{}
	var s nd.Step
	switch kind {
	case 0:
		x := nd.NewMethodStep()
		x.StartTime, x.Hash, x.Elapsed, x.CpuTime = f.i32(), f.i32(), f.i32(), f.i32()
		w.Type, w.Start, w.Hash, w.Elapsed, w.Cpu = 1, x.StartTime, x.Hash, x.Elapsed, x.CpuTime
		s = x
	case 1:
		x := nd.NewMessageStep(f.str(), f.i32())
		w.Type, w.Start, w.Text = 3, x.StartTime, x.Message
		f.n += 2
		s = x
	case 2:
		x := nd.NewHashedMessageStep(f.i32(), f.i32())
		x.Time, x.Value = f.i32(), f.i32()
		w.Type, w.Start, w.Hash, w.Time, w.Value = 9, x.StartTime, x.Hash, x.Time, x.Value
		s = x
	case 3:
		x := nd.NewPMessageStep(f.i32())
		h, a, b := f.i32(), f.str(), "pb"
		n := vrt.Choose("params", 3)
		switch n {
		case 0:
			x.SetMessage(h)
		case 1:
			x.SetMessage(h, a)
			w.Text = a + "\x03"
		case 2:
			x.SetMessage(h, a, b)
			w.Text = a + "\x03" + b + "\x03"
		}
		x.Elapsed, x.Level = f.i32(), nd.PMSG_ERROR
		w.Type, w.Start, w.Hash, w.Elapsed, w.Level = 17, x.StartTime, h, x.Elapsed, 3
		s = x
	case 4:
		x := nd.NewApiCallStep()
		x.StartTime, x.Txid, x.Hash, x.Elapsed, x.CpuTime, x.Error, x.Opt, x.Address = f.i32(), f.i64(), f.i32(), f.i32(), f.i32(), f.i32(), f.u8(), f.str()
		if f.pick%2 == 0 {
			x.Opt = 1
			if vrt.Choose("address", 2) == 0 {
				x.Address = ""
			}
		}
		w.Type, w.Start, w.Txid, w.Hash, w.Elapsed, w.Cpu, w.Error, w.Opt = 6, x.StartTime, x.Txid, x.Hash, x.Elapsed, x.CpuTime, x.Error, x.Opt
		if x.Opt == 1 {
			w.Addr = x.Address
		}
		s = x
	case 5:
		x := nd.NewAsyncServiceStep()
		x.StartTime, x.Txid, x.Hash, x.Elapsed = f.i32(), f.i64(), f.i32(), f.i32()
		w.Type, w.Start, w.Txid, w.Hash, w.Elapsed, w.Threaded = 14, x.StartTime, x.Txid, x.Hash, x.Elapsed, 1
		s = x
	case 6:
		x := nd.NewDumpStep()
		x.StartTime = f.i32()
		x.Stacks = []int32{f.i32(), f.i32(), 9}[:vrt.Choose("stacks", 4)]
		w.Type, w.Start, w.Stacks = 12, x.StartTime, x.Stacks
		s = x
	}
	w.Parent, w.Index = single(f, s)
	return s, w
}

func sameStep(a, b hcommon.Step) {
	eq(a.Type == b.Type, "step type")
	eq(a.Parent == b.Parent, "step parent")
	eq(a.Index == b.Index, "step index")
	eq(a.Start == b.Start, "step start time")
	eq(a.Start2 == 0, "step start cpu")
	eq(a.Txid == b.Txid, "step txid")
	eq(a.Hash == b.Hash, "step hash")
	eq(a.Elapsed == b.Elapsed, "step elapsed")
	eq(a.Cpu == b.Cpu, "step cpu")
	eq(a.Error == b.Error, "step error")
	eq(a.Opt == b.Opt, "step opt")
	eq(a.Addr == b.Addr, "step address")
	eq(a.Text == b.Text, "step text")
	eq(a.Level == b.Level && a.Time == b.Time && a.Value == b.Value && a.Threaded == b.Threaded, "step fields")
	eq(len(a.Stacks) == len(b.Stacks), "stack count")
	for i := range b.Stacks {
		eq(a.Stacks[i] == b.Stacks[i], "stack element")
	}
}

func H_Step() {
	vrt.MustCover("decoded")
	vrt.Bound("every step kind, all values of each field in turn (thorough: of each pair), the others distinct or all zero")
	f := newFields(10)
	s, w := step(f, vrt.Choose("kind", stepKinds))
	got := hcommon.Steps(nd.StepsToBytes([]nd.Step{s}))
	eq(len(got) == 1, "one step")
	sameStep(got[0], w)
	vrt.Cover("decoded")
}

// H_Steps: a sequence of steps is decoded as these steps in this order.
func H_Steps() {
	vrt.MustCover("decoded")
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	vrt.Bound("all sequences of up to 3 (thorough 4) steps of any kinds, one field symbolic, holes (nil) skipped")
	f := &fields{pick: 4, pick2: -1}
	var in []nd.Step
	var want []hcommon.Step
	k := 1 + vrt.Choose("n", n)
	for i := 0; i < k; i++ {
		c := vrt.Choose("kind", stepKinds)
		if c == stepKinds-1 && i > 0 {
			in = append(in, nil)
			continue
		}
		s, w := step(f, c)
		in = append(in, s)
		want = append(want, w)
	}
	got := hcommon.Steps(nd.StepsToBytes(in))
	eq(len(got) == len(want), "number of steps")
	for i := range want {
		sameStep(got[i], want[i])
	}
	vrt.Cover("decoded")
}
