// Package c05: UDP framing delivers every pack intact.
package c05

import (
	"container/list"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt netio/udpclient

func send(c *udpclient.UDPClient, packs [][]byte, batch bool) {
	if batch {
		l := list.New()
		for _, p := range packs {
			l.PushBack(p)
		}
		vrt.Assert(c.WriteBufferList(l), "WriteBufferList reports failure")
		return
	}
	for _, p := range packs {
		vrt.Assert(c.WriteBuffer(p), "WriteBuffer reports failure")
	}
}

func check(packs [][]byte, max int, batch bool) (int, int, int) {
	want := make([][]byte, len(packs))
	for i, p := range packs {
		want[i] = append([]byte{}, p...)
	}
	c := udpclient.New("127.0.0.1", 6100)
	if max > 0 {
		c.SetUDPMaxBytes(max)
	} else {
		max = 60000
	}
	send(c, packs, batch)
	for i := range packs {
		vrt.Assert(hcommon.Same(packs[i], want[i]), "sending changes the caller's bytes")
	}
	for _, d := range net.Dests {
		vrt.Assert(d == "127.0.0.1:6100", "a datagram goes to another address")
	}
	return hcommon.Reassembled(net.Datagrams, want, max)
}

// H_Single: one pack of every size against every limit.
func H_Single() {
	n, m := 6, 7
	if vrt.Thorough() {
		n, m = 12, 13
	}
	vrt.Bound("single pack: contents of 1..6 (12) symbolic bytes, limit 1..7 (13)")
	vrt.MustCover("single")
	vrt.MustCover("frag")
	size := 1 + vrt.Choose("size", n)
	max := vrt.Range("max", 1, m)
	s, _, f := check([][]byte{vrt.Bytes("pack", size)}, max, false)
	if s > 0 {
		vrt.Cover("single")
	}
	if f > 1 {
		vrt.Cover("frag")
	}
}

// H_Batch: lists of packs of every size against every limit.
func H_Batch() {
	k, n, m := 3, 4, 7
	if vrt.Thorough() {
		k, n, m = 4, 4, 9
	}
	vrt.Bound("batches of 1..3 (4) packs of 1..4 symbolic bytes, limit 1..7 (9)")
	vrt.MustCover("two datagrams")
	vrt.MustCover("mixed")
	k = 1 + vrt.Choose("packs", k)
	max := vrt.Range("max", 1, m)
	var packs [][]byte
	for i := 0; i < k; i++ {
		packs = append(packs, vrt.Bytes("pack", 1+vrt.Choose("size", n)))
	}
	_, mu, f := check(packs, max, true)
	if mu > 1 {
		vrt.Cover("two datagrams")
	}
	if mu > 0 && f > 0 {
		vrt.Cover("mixed")
	}
}

// pattern is n bytes that differ from their neighbours, with symbolic ends.
func pattern(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8) ^ salt
	}
	for _, i := range []int{0, 1, n/2 - 1, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			b[i] = vrt.U8("byte")
		}
	}
	return b
}

// H_Limits: sizes around limits where the length of the fragment header changes, and the default.
func H_Limits() {
	vrt.Bound("packs of limit-1, limit, limit+1, 2*limit, 2*limit+1 bytes for the limits 253, 254, 255, 256, 32767, 32768, 60000 (default)")
	limits := []int{253, 254, 255, 256, 300}
	if vrt.Thorough() {
		limits = append(limits, 32767, 32768)
	}
	k := vrt.Choose("limit", len(limits)+1)
	max, set := 60000, 0
	if k < len(limits) {
		max = limits[k]
		set = max
	}
	sizes := []int{max - 1, max, max + 1, 2 * max, 2*max + 1}
	if k == len(limits) && !vrt.Thorough() {
		sizes = sizes[1:3]
	}
	size := sizes[vrt.Choose("size", len(sizes))]
	check([][]byte{pattern(size, 3)}, set, false)
}

// H_BatchLimits: a batch that just fits and just does not.
func H_BatchLimits() {
	vrt.Bound("batches of 2 to 4 packs whose sizes add up to limit-1, limit and limit+1, limits 254, 300 (1000, 32768)")
	limits := []int{254, 300}
	if vrt.Thorough() {
		limits = append(limits, 1000, 32768)
	}
	max := limits[vrt.Choose("limit", len(limits))]
	d := vrt.Choose("delta", 3) - 1
	k := 2 + vrt.Choose("packs", 3)
	var packs [][]byte
	left := max + d
	for i := 0; i < k-1; i++ {
		n := max/k - i
		packs = append(packs, pattern(n, byte(i)))
		left -= n
	}
	packs = append(packs, pattern(left, 9))
	check(packs, max, true)
}

// H_Many: the pack counter of a datagram beyond one byte.
func H_Many() {
	vrt.Bound("batches of 300 packs of 2 bytes")
	var packs [][]byte
	for i := 0; i < 300; i++ {
		p := []byte{byte(i), byte(i >> 8)}
		if i == 7 || i == 299 {
			p = vrt.Bytes("pack", 2)
		}
		packs = append(packs, p)
	}
	max := []int{0, 600, 599, 511, 512}[vrt.Choose("limit", 5)]
	check(packs, max, true)
}

// H_ManyFragments: fragment numbers beyond one byte.
func H_ManyFragments() {
	vrt.Bound("a pack of 601 bytes in fragments of 1 and 2 bytes")
	n := 1 + vrt.Choose("max", 2)
	check([][]byte{pattern(601, 1)}, n, false)
}

// H_Sequence: the client carries nothing over from one call to the next.
func H_Sequence() {
	vrt.Bound("two calls in a row, single or batch, packs of 1..4 bytes, limit 1..4")
	max := vrt.Range("max", 1, 4)
	c := udpclient.New("127.0.0.1", 6100)
	c.SetUDPMaxBytes(max)
	var all [][]byte
	for i := 0; i < 2; i++ {
		var packs [][]byte
		batch := vrt.Choose("batch", 2) == 1
		packs = append(packs, vrt.Bytes("pack", 1+vrt.Choose("size", 4)))
		if batch {
			packs = append(packs, vrt.Bytes("pack", 1+vrt.Choose("size", 4)))
		}
		all = append(all, packs...)
		send(c, packs, batch)
	}
	hcommon.Reassembled(net.Datagrams, all, max)
}

// H_Together: several goroutines use one client.
func H_Together() {
	vrt.Bound("two goroutines sending one pack, one split pack, or a list of two or three (one of them split) each, with one arbitrary byte in each pack; every statement of the client a possible switch, 1 (2) switches; data races")
	max := 4
	c := udpclient.New("127.0.0.1", 6100)
	c.SetUDPMaxBytes(max)
	make := func(id byte) ([][]byte, bool) {
		p := func(n int) []byte {
			b := vrt.Bytes("pack", n)
			b[0] = id
			id++
			for i := 2; i < n; i++ {
				b[i] = id
			}
			return b
		}
		switch vrt.Choose("what", 4) {
		case 0:
			return [][]byte{p(3)}, false
		case 1:
			return [][]byte{p(6)}, false
		case 2:
			return [][]byte{p(2), p(2)}, true
		}
		return [][]byte{p(2), p(5), p(3)}, true
	}
	a, batchA := make('a')
	b, batchB := make('m')
	t := vrt.Spawn(func() { send(c, a, batchA) })
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	send(c, b, batchB)
	vrt.Join(t)
	vrt.NoExplore()
	// the packs in the order in which their datagrams were written
	all := append(append([][]byte{}, a...), b...)
	var sent [][]byte
	for _, d := range net.Datagrams {
		if len(d) > 6 && string(d[:3]) == "CAF" && d[3] != 'M' {
			at := 4
			if d[3] == 'N' {
				at = 6
			}
			for at < len(d) {
				i := 0
				for i < len(all) && all[i][0] != d[at] {
					i++
				}
				vrt.Assert(i < len(all), "bytes arrive that are of no pack")
				sent = append(sent, all[i])
				at += len(all[i])
			}
		}
	}
	for _, d := range net.Datagrams {
		if string(d[:4]) != "CAFM" {
			continue
		}
		in := &hcommon.Dec{B: d[4:]}
		in.I32()
		in.I64()
		in.I16()
		if num, data := in.I16(), in.Blob(); num == 0 && len(data) > 0 {
			for _, p := range all {
				if p[0] == data[0] {
					sent = append(sent, p)
				}
			}
		}
	}
	vrt.Assert(len(sent) == len(all), "not every pack arrives once when two goroutines send")
	hcommon.Reassembled(net.Datagrams, sent, max)
}
