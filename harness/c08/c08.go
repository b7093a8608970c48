// Package c08: bounded containers behave as bounded FIFO maps and sets.
package c08

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// box is a container under test; what a container does not have is nil.
type box struct {
	add      func(k, v interface{})
	remove   func(k interface{})
	get      func(k interface{}) interface{}
	contains func(k interface{}) bool
	size     func() int
	empty    func() bool
	clear    func()
	values   func() []interface{}
	replaces bool // Add on a present key replaces the value
	evicted  *[]interface{}
}

const kinds = 5

func open(kind, max int) *box {
	switch kind {
	case 0, 1:
		c := lra.New(max)
		b := &box{func(k, v interface{}) { c.Add(k, v) }, func(k interface{}) { c.Remove(k) }, func(k interface{}) interface{} { return c.Get(k) },
			c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, true, nil}
		if kind == 1 {
			b.evicted = new([]interface{})
			c.OnEvicted = func(k lra.Key, v interface{}) { *b.evicted = append(*b.evicted, v) }
		}
		return b
	case 2:
		c := cachemap.New(max)
		return &box{c.Add, c.Remove, c.Get, c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, false, nil}
	case 3:
		c := cachemap2.New(max)
		return &box{c.Add, c.Remove, c.Get, c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, false, nil}
	}
	c := cacheset.New(max)
	return &box{func(k, v interface{}) { c.Add(k) }, nil, nil, c.Contains, c.Size, c.Empty, c.Clear, nil, false, nil}
}

type entry struct{ k, v interface{} }

// model is a map with at most max entries (0: any number) in order of insertion.
type model struct {
	max  int
	list []entry
	gone []interface{}
}

func (m *model) find(k interface{}) int {
	for i, e := range m.list {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model) drop(i int) {
	m.gone = append(m.gone, m.list[i].v)
	m.list = append(append([]entry(nil), m.list[:i]...), m.list[i+1:]...)
}

func (m *model) add(k, v interface{}, replace bool) {
	if i := m.find(k); i >= 0 {
		if replace {
			m.list[i].v = v
		}
		return
	}
	if m.max > 0 && len(m.list) == m.max {
		m.drop(0)
	}
	m.list = append(m.list, entry{k, v})
}

// same: the same values, whatever their order.
func same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range a {
			if x == y {
				n++
			}
		}
		for _, y := range b {
			if x == y {
				n--
			}
		}
		if n != 0 {
			return false
		}
	}
	return true
}

func check(b *box, m *model, keys []interface{}) {
	vrt.Assert(b.size() == len(m.list), "the number of entries is wrong")
	vrt.Assert(b.empty() == (len(m.list) == 0), "Empty is wrong")
	for n := range keys {
		k := keys[len(keys)-1-n] // the newest first: looking at an entry must not change its age
		i := m.find(k)
		vrt.Assert(b.contains(k) == (i >= 0), "Contains is wrong about a key")
		if b.get != nil {
			if i >= 0 {
				vrt.Assert(b.get(k) == m.list[i].v, "a present key has another value")
			} else {
				vrt.Assert(b.get(k) == nil, "an absent key has a value")
			}
		}
	}
	if b.values != nil {
		var want []interface{}
		for _, e := range m.list {
			want = append(want, e.v)
		}
		vrt.Assert(same(b.values(), want), "the values enumerated are not those present")
	}
	if b.evicted != nil {
		vrt.Assert(same(*b.evicted, m.gone), "OnEvicted was not called exactly once for each entry that left")
	}
}

// H_History: any sequence of operations over any keys.
func H_History() {
	n, caps := 5, 3
	if vrt.Thorough() {
		n, caps = 6, 4
	}
	vrt.Bound("lra (with and without OnEvicted), cachemap, cachemap2, cacheset; capacities 1..3 (4); histories of 5 (6) operations add, remove, clear over symbolic integer keys; everything observable checked after each, or the oldest entry only, or nothing until the end")
	reads := vrt.Choose("reads", 3)
	b := vrt.Choose("container", kinds)
	max := 1 + vrt.Choose("capacity", caps)
	c := open(b, max)
	m := &model{max: max}
	var keys []interface{}
	check(c, m, keys)
	for i := 0; i < n; i++ {
		op := vrt.Choose("op", 3)
		switch op {
		case 0, 1:
			if op == 1 && (c.remove == nil || i == 0) {
				vrt.Assume(false)
			}
			k := interface{}(int(vrt.U8("key")))
			known := false
			for _, o := range keys {
				known = known || o == k
			}
			if !known {
				keys = append(keys, k)
			}
			if op == 0 {
				c.add(k, 100+i)
				m.add(k, 100+i, c.replaces)
			} else {
				c.remove(k)
				if j := m.find(k); j >= 0 {
					m.drop(j)
				}
			}
		case 2:
			vrt.Assume(i > 0)
			c.clear()
			for len(m.list) > 0 {
				m.drop(0)
			}
		}
		switch {
		case reads == 0 || i == n-1:
			check(c, m, keys)
		case reads == 1 && len(m.list) > 0:
			k := m.list[0].k
			vrt.Assert(c.contains(k), "Contains is wrong about a key")
			if c.get != nil {
				vrt.Assert(c.get(k) == m.list[0].v, "a present key has another value")
			}
		}
	}
}

// H_Long: capacity and eviction order over long histories of additions.
func H_Long() {
	n := 24
	if vrt.Thorough() {
		n = 60
	}
	vrt.Bound("capacities 1, 2, 10, 17 and (lra) unlimited, 24 (60) additions of distinct keys above a symbolic base, some of them removed or added again")
	b := vrt.Choose("container", kinds)
	max := []int{1, 2, 10, 17, 0}[vrt.Choose("capacity", 5)]
	vrt.Assume(max > 0 || b < 2)
	c := open(b, max)
	m := &model{max: max}
	base := int(vrt.I64("base") >> 8)
	var keys []interface{}
	again := 1 + vrt.Choose("again", 7)
	for i := 0; i < n; i++ {
		k := interface{}(base + i)
		keys = append(keys, k)
		c.add(k, i)
		m.add(k, i, c.replaces)
		if old := keys[i/2]; again%2 == 0 {
			vrt.Assert(c.contains(old) == (m.find(old) >= 0), "Contains is wrong about a key")
			if c.get != nil && m.find(old) >= 0 {
				vrt.Assert(c.get(old) == m.list[m.find(old)].v, "a present key has another value")
			}
		}
		if i%again == again-1 {
			j := keys[i*2/3]
			if c.remove != nil && i%2 == 0 {
				c.remove(j)
				if x := m.find(j); x >= 0 {
					m.drop(x)
				}
			} else {
				c.add(j, -i)
				m.add(j, -i, c.replaces)
			}
		}
	}
	check(c, m, keys)
}

// H_Types: keys of different types are different keys, and two containers share nothing.
func H_Types() {
	vrt.Bound("keys of types int, int32, int64, string, byte array and struct with one symbolic value; two containers of one kind side by side")
	b := vrt.Choose("container", kinds)
	x := vrt.U8("x")
	ks := []interface{}{int(x), int32(x), int64(x), string([]byte{x}), [1]byte{x}, struct{ a int }{int(x)}}
	c, d := open(b, 6), open(b, 6)
	m, e := &model{max: 6}, &model{max: 6}
	for i, k := range ks {
		c.add(k, i)
		m.add(k, i, c.replaces)
		if i%2 == 0 {
			d.add(k, -i)
			e.add(k, -i, c.replaces)
		}
	}
	check(c, m, ks)
	check(d, e, ks)
	if c.remove != nil {
		j := vrt.Choose("removed", len(ks))
		c.remove(ks[j])
		m.drop(j)
		check(c, m, ks)
		check(d, e, ks)
	}
	d.clear()
	e.list, e.gone = nil, nil
	if d.evicted != nil {
		*d.evicted = nil
	}
	check(c, m, ks)
	check(d, e, ks)
}
