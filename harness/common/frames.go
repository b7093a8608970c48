package hcommon

import "github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"

// Reassembled checks what the collector gets out of datagrams against the packs that were given:
// every pack arrives exactly once and unchanged, those that are not fragmented in order, every datagram is
// within the limit max (headers apart) and says what it contains. It returns how many datagrams of
// each kind there were.
func Reassembled(datagrams [][]byte, packs [][]byte, max int) (single, multi, frag int) {
	var whole, split [][]byte
	for _, p := range packs {
		if len(p) > max {
			split = append(split, p)
		} else {
			whole = append(whole, p)
		}
	}
	type group struct {
		id    int64
		total int
		parts [][]byte
		n     int
	}
	var groups []*group
	take := func() []byte {
		vrt.Assert(len(whole) > 0, "more packs arrive than were sent")
		p := whole[0]
		whole = whole[1:]
		return p
	}
	for _, b := range datagrams {
		d := &Dec{B: b}
		switch string(d.take(4)) {
		case "CAFE":
			single++
			p := take()
			vrt.Assert(d.Left() <= max, "datagram above the size limit")
			vrt.Assert(Same(d.take(d.Left()), p), "a pack arrives changed, out of order or more than once")
		case "CAFN":
			multi++
			n := int(d.I16())
			vrt.Assert(n > 0, "multi-pack datagram without packs")
			vrt.Assert(d.Left() <= max, "datagram above the size limit")
			for i := 0; i < n; i++ {
				p := take()
				vrt.Assert(Same(d.take(len(p)), p), "a batched pack arrives changed, out of order or more than once")
			}
			vrt.Assert(d.Left() == 0, "the count of a multi-pack datagram does not cover its contents")
		case "CAFM":
			frag++
			d.I32()
			id := d.I64()
			total, num := int(d.I16()), int(d.I16())
			data := d.Blob()
			vrt.Assert(d.Left() == 0, "bytes left after a fragment")
			vrt.Assert(len(data) > 0 && len(data) <= max, "fragment is empty or above the size limit")
			var g *group
			for _, x := range groups {
				if x.id == id {
					g = x
				}
			}
			if g == nil {
				vrt.Assert(total > 0, "fragment count is not positive")
				g = &group{id: id, total: total, parts: make([][]byte, total)}
				groups = append(groups, g)
			}
			vrt.Assert(total == g.total, "the fragments of a pack disagree on their count")
			vrt.Assert(num >= 0 && num < total, "fragment number outside of the fragment count")
			vrt.Assert(g.parts[num] == nil, "two fragments of a pack have the same number")
			g.parts[num] = data
			g.n++
		default:
			vrt.Fail("unknown datagram marker")
		}
	}
	vrt.Assert(len(whole) == 0, "a pack does not arrive")
	vrt.Assert(len(groups) == len(split), "a pack above the limit does not arrive, arrives more than once or in mixed groups")
	for i, g := range groups {
		vrt.Assert(g.n == g.total, "a fragment is missing")
		var all []byte
		for _, p := range g.parts {
			all = append(all, p...)
		}
		vrt.Assert(Same(all, split[i]), "a fragmented pack arrives changed")
	}
	return
}

// Same compares without forking on the contents.
func Same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

// Crc is the CRC-32 of a text, by which texts are identified on the wire.
func Crc(s string) int32 {
	if s == "" {
		return 0
	}
	c := ^uint32(0)
	for i := 0; i < len(s); i++ {
		c ^= uint32(s[i])
		for k := 0; k < 8; k++ {
			c = c>>1 ^ uint32(vrt.Ite(c&1 == 1, 0xEDB88320, 0))
		}
	}
	return int32(^c)
}

// InOrder checks that the packs arrive in the order in which they were given, those that are split
// included: the last fragment of a pack comes after what was given before it and before what was
// given after it.
func InOrder(datagrams [][]byte, packs [][]byte, max int) {
	next := 0
	seen := map[int64]int{}
	for _, b := range datagrams {
		d := &Dec{B: b}
		switch string(d.take(4)) {
		case "CAFE":
			vrt.Assert(next < len(packs) && len(packs[next]) <= max, "a pack overtakes another one")
			next++
		case "CAFN":
			for n := int(d.I16()); n > 0; n-- {
				vrt.Assert(next < len(packs) && len(packs[next]) <= max, "a pack overtakes another one")
				next++
			}
		case "CAFM":
			d.I32()
			id := d.I64()
			total := int(d.I16())
			vrt.Assert(next < len(packs) && len(packs[next]) > max, "a pack overtakes another one")
			if seen[id]++; seen[id] == total {
				next++
			}
		}
	}
}
