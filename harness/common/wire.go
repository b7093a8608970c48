// Package hcommon: an independent decoder of the Scouter wire format and helpers of the harnesses.
package hcommon

import (
	"math"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// Dec reads the wire format. It shares no code with the agent.
type Dec struct {
	B   []byte
	Pos int
}

func (d *Dec) Left() int { return len(d.B) - d.Pos }

func (d *Dec) take(n int) []byte {
	vrt.Assert(n >= 0 && d.Pos+n <= len(d.B), "wire: a field runs over the end")
	r := d.B[d.Pos : d.Pos+n]
	d.Pos += n
	return r
}

// Take returns the next n bytes.
func (d *Dec) Take(n int) []byte { return d.take(n) }

func (d *Dec) U8() byte { return d.take(1)[0] }

func be(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func (d *Dec) I16() int16 { return int16(be(d.take(2))) }
func (d *Dec) I32() int32 { return int32(be(d.take(4))) }
func (d *Dec) I64() int64 { return int64(be(d.take(8))) }

// Decimal is a length byte and that many bytes, big-endian and signed.
func (d *Dec) Decimal() int64 {
	switch n := d.U8(); n {
	case 0:
		return 0
	case 1:
		return int64(int8(be(d.take(1))))
	case 2:
		return int64(d.I16())
	case 4:
		return int64(d.I32())
	case 8:
		return d.I64()
	}
	vrt.Fail("wire: bad length of a decimal")
	return 0
}

func (d *Dec) D32() int32 {
	v := d.Decimal()
	vrt.Assert(v == int64(int32(v)), "wire: decimal out of range")
	return int32(v)
}

func (d *Dec) Blob() []byte {
	n := int(d.U8())
	switch n {
	case 255:
		n = int(be(d.take(2)))
	case 254:
		n = int(be(d.take(4)))
	}
	return d.take(n)
}

func (d *Dec) Text() string { return string(d.Blob()) }

func (d *Dec) Bool() bool { return d.U8() != 0 }

// Val is a decoded value.
type Val struct {
	Tag  byte
	N    int64
	S    string
	F    uint64
	B    bool
	List []Val
	Keys []string
}

func (v *Val) Get(key string) *Val {
	for i, k := range v.Keys {
		if k == key {
			return &v.List[i]
		}
	}
	return nil
}

// Value reads a tagged value.
func (d *Dec) Value() Val {
	v := Val{Tag: d.U8()}
	switch v.Tag {
	case 0:
	case 10:
		v.B = d.Bool()
	case 20:
		v.N = d.Decimal()
	case 30:
		v.F = be(d.take(4))
	case 40:
		v.F = be(d.take(8))
	case 50:
		v.S = d.Text()
	case 51:
		v.N = int64(d.I32())
	case 60:
		v.S = d.Text()
	case 61:
		v.S = string(d.take(4))
	case 70:
		n := d.Decimal()
		for i := int64(0); i < n; i++ {
			v.List = append(v.List, d.Value())
		}
	case 80:
		n := d.Decimal()
		for i := int64(0); i < n; i++ {
			v.Keys = append(v.Keys, d.Text())
			v.List = append(v.List, d.Value())
		}
	default:
		vrt.Fail("wire: unknown value tag")
	}
	return v
}

// Float is the value of a 30-tagged float.
func (v *Val) Float() float32 { return math.Float32frombits(uint32(v.F)) }

// Xlog is a transaction record.
type Xlog struct {
	EndTime                                               int64
	ObjHash, Service                                      int32
	Txid, Caller, Gxid                                    int64
	Elapsed, Error, Cpu, SqlCount, SqlTime                int32
	Ipaddr                                                string
	Kbytes, Status                                        int32
	Userid                                                int64
	UserAgent, Referer, Group, ApicallCount, ApicallTime  int32
	CountryCode                                           string
	City                                                  int32
	XType                                                 byte
	Login, Desc, WebHash, WebTime                         int32
	HasDump                                               byte
	ThreadName                                            int32
	Text1, Text2                                          string
	QHost, QTime, Q2Host, Q2Time                          int32
	Text3, Text4, Text5                                   string
	ProfileCount                                          int32
	B3                                                    bool
	ProfileSize                                           int32
	Discard                                               byte
	IgnoreGlobal                                          bool
}

// Step is a profile step of any kind.
type Step struct {
	Type                        byte
	Parent, Index, Start, Start2 int32
	Txid                        int64
	Hash, Elapsed, Cpu, Error   int32
	Opt                         byte
	Addr, Text                  string
	Level, Time, Value          int32
	Threaded                    byte
	Stacks                      []int32
	ThreadID, LockOwner         int64
	ThreadName, State, Lock, LockOwnerName string
}

// Profile is a bulk of steps of one transaction.
type Profile struct {
	Time             int64
	ObjHash, Service int32
	Txid             int64
	Steps            []Step
	Size             int
}

// Pack is a decoded pack of any kind.
type Pack struct {
	Tag     byte
	Xlog    *Xlog
	Profile *Profile
	// text
	Xtype string
	Hash  int32
	Text  string
	// counter, alert, object, map
	Time                                        int64
	ObjName, ObjType, Address, Version, SiteID  string
	TimeType, Family                            int8
	Level                                       byte
	Title, Message                              string
	Alive                                       bool
	Data                                        Val
}

// Xlog reads the body of a transaction pack: a blob of fields.
func (d *Dec) XlogBody() *Xlog {
	i := &Dec{B: d.Blob()}
	x := &Xlog{}
	x.EndTime = i.Decimal()
	x.ObjHash = i.D32()
	x.Service = i.D32()
	x.Txid = i.I64()
	x.Caller = i.I64()
	x.Gxid = i.I64()
	x.Elapsed = i.D32()
	x.Error = i.D32()
	x.Cpu = i.D32()
	x.SqlCount = i.D32()
	x.SqlTime = i.D32()
	x.Ipaddr = i.Text()
	x.Kbytes = i.D32()
	x.Status = i.D32()
	x.Userid = i.Decimal()
	x.UserAgent = i.D32()
	x.Referer = i.D32()
	x.Group = i.D32()
	x.ApicallCount = i.D32()
	x.ApicallTime = i.D32()
	x.CountryCode = i.Text()
	x.City = i.D32()
	x.XType = i.U8()
	x.Login = i.D32()
	x.Desc = i.D32()
	x.WebHash = i.D32()
	x.WebTime = i.D32()
	x.HasDump = i.U8()
	x.ThreadName = i.D32()
	x.Text1 = i.Text()
	x.Text2 = i.Text()
	x.QHost = i.D32()
	x.QTime = i.D32()
	x.Q2Host = i.D32()
	x.Q2Time = i.D32()
	x.Text3 = i.Text()
	x.Text4 = i.Text()
	x.Text5 = i.Text()
	x.ProfileCount = i.D32()
	x.B3 = i.Bool()
	x.ProfileSize = i.D32()
	x.Discard = i.U8()
	x.IgnoreGlobal = i.Bool()
	vrt.Assert(i.Left() == 0, "wire: bytes left in a transaction")
	return x
}

// Step reads one step.
func (d *Dec) Step() Step {
	s := Step{Type: d.U8()}
	s.Parent = d.D32()
	s.Index = d.D32()
	s.Start = d.D32()
	s.Start2 = d.D32()
	switch s.Type {
	case 1: // method
		s.Hash = d.D32()
		s.Elapsed = d.D32()
		s.Cpu = d.D32()
	case 3: // message
		s.Text = d.Text()
	case 9: // hashed message
		s.Hash = d.D32()
		s.Time = d.D32()
		s.Value = d.D32()
	case 17: // parameterised message
		s.Hash = d.D32()
		s.Elapsed = d.D32()
		s.Level = d.D32()
		s.Text = d.Text()
	case 6: // api call
		s.Txid = d.Decimal()
		s.Hash = d.D32()
		s.Elapsed = d.D32()
		s.Cpu = d.D32()
		s.Error = d.D32()
		s.Opt = d.U8()
		if s.Opt == 1 {
			s.Addr = d.Text()
		}
	case 14: // asynchronous service
		s.Txid = d.Decimal()
		s.Hash = d.D32()
		s.Elapsed = d.D32()
		s.Threaded = d.U8()
	case 12: // dump
		n := int(d.I16())
		for i := 0; i < n; i++ {
			s.Stacks = append(s.Stacks, d.I32())
		}
		s.ThreadID = d.I64()
		s.ThreadName = d.Text()
		s.State = d.Text()
		s.LockOwner = d.I64()
		s.Lock = d.Text()
		s.LockOwnerName = d.Text()
	default:
		vrt.Fail("wire: unknown step type")
	}
	return s
}

// Steps reads steps to the end.
func Steps(b []byte) []Step {
	d := &Dec{B: b}
	var r []Step
	for d.Left() > 0 {
		r = append(r, d.Step())
	}
	return r
}

// Pack reads one tagged pack.
func (d *Dec) Pack() *Pack {
	p := &Pack{Tag: d.U8()}
	switch p.Tag {
	case 21:
		p.Xlog = d.XlogBody()
	case 26:
		f := &Profile{}
		f.Time = d.Decimal()
		f.ObjHash = d.D32()
		f.Service = d.D32()
		f.Txid = d.I64()
		b := d.Blob()
		f.Size = len(b)
		f.Steps = Steps(b)
		p.Profile = f
	case 50:
		p.Xtype = d.Text()
		p.Hash = d.I32()
		p.Text = d.Text()
	case 60:
		p.Time = d.I64()
		p.ObjName = d.Text()
		p.TimeType = int8(d.U8())
		p.Data = d.Value()
	case 70:
		p.Time = d.I64()
		p.Level = d.U8()
		p.ObjType = d.Text()
		p.Hash = d.I32()
		p.Title = d.Text()
		p.Message = d.Text()
		p.Data = d.Value()
	case 80:
		p.ObjType = d.Text()
		p.Hash = d.D32()
		p.ObjName = d.Text()
		p.Address = d.Text()
		p.Version = d.Text()
		p.Alive = d.Bool()
		p.Time = d.Decimal()
		p.Data = d.Value()
	case 10:
		n := d.Decimal()
		p.Data.Tag = 80
		for i := int64(0); i < n; i++ {
			p.Data.Keys = append(p.Data.Keys, d.Text())
			p.Data.List = append(p.Data.List, d.Value())
		}
	default:
		vrt.Fail("wire: unknown pack tag")
	}
	return p
}

// OnePack decodes exactly one pack.
func OnePack(b []byte) *Pack {
	d := &Dec{B: b}
	p := d.Pack()
	vrt.Assert(d.Left() == 0, "wire: bytes left after a pack")
	return p
}

// Datagram splits an unfragmented datagram into packs.
func Datagram(b []byte) []*Pack {
	d := &Dec{B: b}
	m := string(d.take(4))
	var r []*Pack
	switch m {
	case "CAFE":
		r = append(r, d.Pack())
	case "CAFN":
		n := int(d.I16())
		for i := 0; i < n; i++ {
			r = append(r, d.Pack())
		}
	default:
		vrt.Fail("wire: unknown datagram marker")
	}
	vrt.Assert(d.Left() == 0, "wire: bytes left in a datagram")
	return r
}
