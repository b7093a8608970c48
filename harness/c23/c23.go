// Package c23: text forms of addresses and ids, times in milliseconds, and the hash of texts.
package c23

import (
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt common/util

// address is the value of a dotted IPv4 address, without branching on the bytes.
func address(s string, dots []int) (ok bool, b [4]int64) {
	ok = len(dots) == 3
	if !ok {
		return
	}
	ends := append(append([]int{}, dots...), len(s))
	from := 0
	for i, e := range ends {
		ok = vrt.And(ok, e > from)
		for _, c := range []byte(s[from:e]) {
			ok = vrt.And(ok, vrt.And(c >= '0', c <= '9'))
			b[i] = b[i]*10 + int64(c) - '0'
			ok = vrt.And(ok, vrt.And(b[i] >= 0, b[i] <= 255))
			b[i] = vrt.Ite(ok, b[i], 0)
		}
		from = e + 1
	}
	return
}

// H_Address: texts as IPv4 addresses.
func H_Address() {
	n := 9
	if vrt.Thorough() {
		n = 11
	}
	vrt.Bound("every text of up to 9 (thorough: 11) bytes, any of them, with any number of dots from 2 to 4 in any place; longer parts in 8 texts")
	if vrt.Choose("long", 2) == 1 {
		texts := []string{"255.255.255.255", "256.1.1.1", "1.1.1.00000000256", "0001.0002.0003.0004", "1.2.3.4.5", "18446744073709551617.1.1.1", "127.0.0.1:80", "::ffff:1.2.3.4"}
		want := [][4]byte{{255, 255, 255, 255}, {}, {}, {1, 2, 3, 4}, {}, {}, {}, {}}
		i := vrt.Choose("text", len(texts))
		got := util.IpToBytes(texts[i])
		vrt.Assert(len(got) == 4, "an address is not 4 bytes long")
		vrt.Assert([4]byte{got[0], got[1], got[2], got[3]} == want[i], "an address is not that of its text")
		return
	}
	l := vrt.Choose("len", n+1)
	s := []byte(vrt.String("s", l))
	var dots []int
	k := 2 + vrt.Choose("dots", 3)
	p := 0
	for i := 0; i < k; i++ {
		p += vrt.Choose("gap", 5)
		vrt.Assume(p < l)
		dots = append(dots, p)
		p++
	}
	is := func(i int) bool {
		for _, d := range dots {
			if d == i {
				return true
			}
		}
		return false
	}
	for i := range s {
		if is(i) {
			s[i] = '.'
		} else {
			vrt.Assume(s[i] != '.')
		}
	}
	vrt.MustTerminate(true)
	got := util.IpToBytes(string(s))
	ok, want := address(string(s), dots)
	vrt.Assert(len(got) == 4, "an address is not 4 bytes long")
	for i := range want {
		vrt.Assert(int64(got[i]) == vrt.Ite(ok, want[i], 0), "an address is not that of its text")
	}
}

// H_Other: a refused address stays 0.0.0.0.
func H_Other() {
	vrt.Bound("any two of 6 texts of 1 symbolic digit each, one after the other")
	d := string([]byte{'0' + vrt.U8("d")%10})
	texts := []string{"", d, "1.2.3." + d, d + ".2.3", "x.1.1." + d, "1.2.3.4" + d}
	a := util.IpToBytes(texts[vrt.Choose("first", 6)])
	b := util.IpToBytes(texts[2])
	vrt.Assert(b[3] == d[0]-'0' && b[0] == 1, "an address depends on the one before")
	_ = a
}

const digits = "0123456789abcdefghijklmnopqrstuv"

// H_Id: ids in base 32.
func H_Id() {
	vrt.Bound("every 64-bit number")
	v := vrt.I64("v")
	s := util.IntToXlogString32(v)
	vrt.Assert(len(s) >= 2 && len(s) <= 14, "the text of an id has a wrong length")
	vrt.Assert((s[0] == 'z') == (v < 0) && (s[0] == 'z' || s[0] == 'x'), "the text of an id has the wrong sign")
	u := uint64(0)
	valid := true
	for i := 1; i < len(s); i++ {
		c := s[i]
		digit := vrt.And(c >= '0', c <= '9')
		valid = vrt.And(valid, vrt.Or(digit, vrt.And(c >= 'a', c <= 'v')))
		u = u<<5 | uint64(vrt.Ite(digit, int64(c)-'0', int64(c)-'a'+10))
	}
	vrt.Assert(valid, "the text of an id has a character that is not a digit")
	vrt.Assert(len(s) == 2 || s[1] != '0', "the text of an id starts with zeros")
	m := uint64(v)
	if v < 0 {
		m = -m
	}
	vrt.Assert(u == m, "the text of an id does not stand for it")
}

// H_Hash: the hash of a text.
func H_Hash() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	vrt.Bound("every text of up to 2 (thorough: 3) bytes, and texts of up to 20 bytes with any byte in any place")
	var b []byte
	if vrt.Choose("long", 2) == 0 {
		b = vrt.BytesUpTo("b", n)
	} else {
		b = []byte("/order/\xff\x00<GET> abcde")[:1+vrt.Choose("len", 20)]
		b[vrt.Choose("at", len(b))] = vrt.U8("byte")
	}
	want := uint32(0xffffffff)
	for _, c := range b {
		want ^= uint32(c)
		for k := 0; k < 8; k++ {
			want = want>>1 ^ 0xedb88320&-(want&1)
		}
	}
	want = ^want
	vrt.Assert(uint32(util.HashString(string(b))) == want, "the hash of a text is not its CRC-32")
	vrt.Assert(uint32(util.Hash(b)) == want, "the hash of bytes is not their CRC-32")
}

// H_Together: two goroutines at the same time.
func H_Together() {
	vrt.Bound("two goroutines asking for an address, an id and a hash each, one of them with any digit in each; every statement of common/util a possible switch, 1 (2) switches; data races")
	d := vrt.U8("digit")
	vrt.Assume(d >= '1' && d <= '9')
	work := func(d byte) {
		for k := 0; k < 2; k++ {
			a := util.IpToBytes("1.2.3." + string([]byte{d}))
			vrt.Assert(len(a) == 4 && a[0] == 1 && a[1] == 2 && a[2] == 3 && a[3] == d-'0', "an address is not that of its text when two goroutines ask")
			s := util.IntToXlogString32(-int64(d))
			vrt.Assert(s == "z1"+string([]byte{d - 32 + '0'}) || d-32 >= 10 && s == "z1"+string([]byte{d - 42 + 'a'}), "the text of an id does not stand for it when two goroutines ask")
		}
		vrt.Assert(util.HashString("ab") == -1635563411, "a hash is wrong when two goroutines ask")
	}
	t := vrt.Spawn(func() { work(d) })
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	work('7')
	vrt.Join(t)
	vrt.NoExplore()
}

// H_Times: times in milliseconds.
func H_Times() {
	vrt.Bound("two times up to 65535 ns and 12 chosen amounts of up to 24 days apart, from 1970 to 2106")
	from := int64(vrt.U32("from"))
	ns := int64(vrt.U16("ns"))
	days := int64(vrt.Choose("days", 3)) * 12 * 86400000
	for _, ms := range []int64{0, 1, 999, 1000} {
		d := (days+ms)*1000000 + 900000 + ns
		a := time.Unix(0, from*1000000000)
		b := time.Unix(0, from*1000000000+d)
		vrt.Assert(util.MillisBetween(a, b) == int32(days+ms), "the milliseconds between two times are wrong")
		vrt.Assert(util.TimeToMillis(time.Unix(0, d)) == days+ms, "a time in milliseconds is wrong")
	}
}
