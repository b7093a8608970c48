// Package c07: every hashed text reaches the collector.
package c07

import (
	"strconv"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type kind struct {
	name string
	send func(string) int32
}

var kinds = []kind{
	{"service", netio.SendServiceName}, {"hmsg", netio.SendHashedMessage}, {"object", netio.SendObjName},
	{"referer", netio.SendReferer}, {"ua", netio.SendUserAgent}, {"method", netio.SendMethod},
	{"apicall", netio.SendApicall}, {"error", netio.SendError}, {"login", netio.SendLogin},
	{"desc", netio.SendDesc}, {"stackelem", netio.SendStackElement},
}

// crc is CRC-32 (IEEE 802.3), bit by bit.
func crc(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			c = c>>1 ^ 0xedb88320&-(c&1)
		}
	}
	return ^c
}

// H_Hash: the hash is the CRC-32 of the bytes.
func H_Hash() {
	n := 6
	if vrt.Thorough() {
		n = 24
	}
	vrt.Bound("texts of 0..6 (24) bytes and of 300 bytes, one of them symbolic at any position (the last ones of the 300)")
	var b []byte
	switch vrt.Choose("form", 3) {
	case 0:
		b = vrt.BytesUpTo("text", 1)
	case 1:
		l := 1 + vrt.Choose("len", n)
		for i := 0; i < l; i++ {
			b = append(b, byte(i*37+200))
		}
		b[vrt.Choose("pos", l)] = vrt.U8("byte")
	case 2:
		for i := 0; i < 300; i++ {
			b = append(b, byte(i*37))
		}
		b[[]int{290, 299}[vrt.Choose("pos", 2)]] = vrt.U8("byte")
	}
	vrt.Assert(uint32(util.HashString(string(b))) == crc(b), "the hash of a text is not its CRC-32")
	vrt.Assert(uint32(util.Hash(b)) == crc(b), "the hash of a text is not its CRC-32")
}

type text struct {
	kind, text string
	hash       int32
}

// texts decodes every text pack sent since the last call.
func texts() []text {
	vrt.RunFor(400)
	var r []text
	for _, d := range net.Datagrams {
		for _, p := range hcommon.Datagram(d) {
			if p.Tag == 50 {
				r = append(r, text{p.Xtype, p.Text, p.Hash})
			}
		}
	}
	net.Datagrams = nil
	return r
}

func same(t text, k string, s string, h int32) bool {
	return vrt.And(vrt.And(t.kind == k, t.hash == h), hcommon.Same([]byte(t.text), []byte(s)))
}

// H_Kind: each kind of text sends exactly the text, its hash and its kind on first use.
func H_Kind() {
	vrt.Bound("each of the 11 kinds, texts of 0..3 symbolic bytes, used twice")
	k := kinds[vrt.Choose("kind", len(kinds))]
	s := vrt.StringUpTo("text", 3)
	h := k.send(s)
	got := texts()
	if s == "" {
		vrt.Assert(h == 0 && len(got) == 0, "the empty text is not hash 0")
		return
	}
	vrt.Assert(h == util.HashString(s), "the returned hash is not the hash of the text")
	vrt.Assert(len(got) == 1, "a text is not sent exactly once on its first use")
	vrt.Assert(same(got[0], k.name, s, h), "the text sent differs in kind, hash or text")
	vrt.Assert(k.send(s) == h, "a text gets another hash when used again")
	vrt.Assert(len(texts()) == 0, "a text is sent again")
	netio.ResetTextSent()
	vrt.Assert(k.send(s) == h, "a text gets another hash after a reset")
	got = texts()
	vrt.Assert(len(got) == 1 && same(got[0], k.name, s, h), "a text is not sent again after a reset")
}

// H_Long: a long text is sent whole, and two long texts that differ in one byte are two texts.
func H_Long() {
	vrt.SetLimit(20000000)
	vrt.Bound("each of the 11 kinds, texts of 260, 1100 and 5000 bytes, one of the last of them symbolic")
	k := kinds[vrt.Choose("kind", len(kinds))]
	n := []int{260, 1100, 5000}[vrt.Choose("len", 3)]
	pos := []int{n - 3, n - 1}[vrt.Choose("pos", 2)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	plain := string(b)
	b[pos] = vrt.U8("byte")
	s := string(b)
	g := k.send(plain)
	h := k.send(s)
	differ := s[pos] != plain[pos]
	vrt.Assert((g != h) == differ, "two texts that differ in one byte get the same hash")
	got := texts()
	if differ {
		vrt.Assert(len(got) == 2, "a text is not sent exactly once on its first use")
		vrt.Assert(same(got[1], k.name, s, h), "the text sent differs in kind, hash or text")
	} else {
		vrt.Assert(len(got) == 1, "a text is sent again")
	}
	vrt.Assert(same(got[0], k.name, plain, g), "the text sent differs in kind, hash or text")
}

// H_Independent: what was sent as one kind is not taken as sent for another.
func H_Independent() {
	vrt.Bound("every pair of kinds, one symbolic text of 2 bytes")
	a, b := vrt.Choose("first", len(kinds)), vrt.Choose("second", len(kinds))
	s := vrt.String("text", 2)
	h := kinds[a].send(s)
	g := kinds[b].send(s)
	vrt.Assert(h == g, "equal texts get different hashes")
	got := texts()
	if a == b {
		vrt.Assert(len(got) == 1, "a text is sent again")
		return
	}
	vrt.Assert(len(got) == 2, "a text of one kind is taken as sent for another kind")
	vrt.Assert(same(got[0], kinds[a].name, s, h) && same(got[1], kinds[b].name, s, h), "the text sent differs in kind, hash or text")
}

// H_History: any sequence of uses and resets of three possibly equal texts in two kinds.
func H_History() {
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	vrt.Bound("histories of 4 (5) steps over 2 kinds, 2 symbolic texts of 1 byte and reset; pair of kinds chosen")
	pair := vrt.Choose("kinds", len(kinds))
	ks := []kind{kinds[pair], kinds[(pair+1)%len(kinds)]}
	ss := []string{vrt.String("s", 1), vrt.String("t", 1)}
	var sent []text
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 5)
		if op == 4 {
			netio.ResetTextSent()
			sent = nil
			continue
		}
		k, s := ks[op/2], ss[op%2]
		h := k.send(s)
		vrt.Assert(h == util.HashString(s), "the returned hash is not the hash of the text")
		known := false
		for _, t := range sent {
			if t.kind == k.name && t.text == s {
				known = true
			}
		}
		got := texts()
		if known {
			vrt.Assert(len(got) == 0, "a text is sent again without need")
		} else {
			vrt.Assert(len(got) == 1 && same(got[0], k.name, s, h), "a text is not sent before its hash is used")
			sent = append(sent, text{k.name, s, h})
		}
	}
}

// H_Memory: many texts; those still remembered are not sent again, those forgotten are.
func H_Memory() {
	vrt.Bound("60 object names or 60 (300) texts of another kind with one common symbolic byte, each used twice")
	ki := vrt.Choose("kind", len(kinds))
	k := kinds[ki]
	n := 60
	if vrt.Thorough() && k.name != "object" {
		n = 300
	}
	salt := vrt.String("salt", 1)
	for r := 0; r < 2; r++ {
		for i := 0; i < n; i++ {
			h := k.send(salt + strconv.Itoa(i))
			if i%7 == 0 {
				vrt.Assert(h == util.HashString(salt+strconv.Itoa(i)), "the returned hash is not the hash of the text")
			}
			if i%50 == 0 {
				got := texts()
				for _, t := range got {
					vrt.Assert(t.kind == k.name, "text of another kind")
				}
				vrt.Assert(r == 0 || len(got) == 0, "a text is sent again although few texts were sent since")
			}
		}
		vrt.Assert(len(texts()) == (n-1)%50*(1-r), "not every text is sent exactly once")
	}
}

// H_Concurrent: concurrent first uses send the text at least once.
func H_Concurrent() {
	vrt.Bound("2 threads using the same and another text, up to 1 (2) preemptions; data races without preemption")
	hconf.Set("send_queue_size=100")
	k := kinds[[]int{0, 5}[vrt.Choose("kind", 2)]]
	if vrt.Thorough() {
		k = kinds[vrt.Choose("any", len(kinds))]
	}
	s, t := "a"+vrt.String("s", 1), "b"+vrt.String("t", 1)
	k.send("x")
	texts()
	var ids []int
	if vrt.Choose("races", 2) == 1 {
		vrt.Race()
		vrt.Explore(0)
	} else if vrt.Thorough() {
		vrt.Explore(2)
	} else {
		vrt.Explore(1)
	}
	for i := 0; i < 2; i++ {
		ids = append(ids, vrt.Spawn(func() {
			h := k.send(s)
			g := k.send(t)
			vrt.Assert(h == util.HashString(s) && g == util.HashString(t), "the returned hash is not the hash of the text")
		}))
	}
	vrt.Join(ids...)
	vrt.NoExplore()
	fs, ft := false, false
	for _, g := range texts() {
		fs = fs || g.text == s
		ft = ft || g.text == t
		vrt.Assert(g.kind == k.name, "text of another kind")
	}
	vrt.Assert(fs && ft, "a text whose hash is used is never sent")
}
