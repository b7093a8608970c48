// Package c09: bounded containers are safe and atomic under concurrent use.
package c09

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

// box is a container under test; what a container does not have is nil.
type box struct {
	add      func(k, v interface{})
	remove   func(k interface{})
	get      func(k interface{}) interface{}
	contains func(k interface{}) bool
	size     func() int
	empty    func() bool
	clear    func()
	values   func() []interface{}
	replaces bool
}

const kinds = 4

func open(kind, max int) *box {
	switch kind {
	case 0:
		c := lra.New(max)
		return &box{func(k, v interface{}) { c.Add(k, v) }, func(k interface{}) { c.Remove(k) }, func(k interface{}) interface{} { return c.Get(k) },
			c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, true}
	case 1:
		c := cachemap.New(max)
		return &box{c.Add, c.Remove, c.Get, c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, false}
	case 2:
		c := cachemap2.New(max)
		return &box{c.Add, c.Remove, c.Get, c.Contains, c.Size, c.Empty, c.Clear, c.GetValues, false}
	}
	c := cacheset.New(max)
	return &box{func(k, v interface{}) { c.Add(k) }, nil, nil, c.Contains, c.Size, c.Empty, c.Clear, nil, false}
}

type entry struct{ k, v int }

type model struct{ list []entry }

func (m *model) find(k int) int {
	for i, e := range m.list {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model) drop(i int) {
	m.list = append(append([]entry(nil), m.list[:i]...), m.list[i+1:]...)
}

// call is one operation and what it returned.
type call struct {
	op, key, val int
	none         bool
	res          int
	vals         []int
	start, end   int
}

const (
	opAdd = iota
	opRemove
	opGet
	opContains
	opSize
	opEmpty
	opClear
	opValues
)

// The operations tried, over keys 1 and 2, which are present, and 3, which is not.
var menu = []call{{op: opAdd, key: 1}, {op: opAdd, key: 3}, {op: opRemove, key: 1}, {op: opClear}, {op: opGet, key: 1}, {op: opContains, key: 3}, {op: opSize}, {op: opEmpty}, {op: opValues}}

var clock int

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

// run makes the call on the container.
func (c *call) run(b *box) {
	clock++
	c.start = clock
	switch c.op {
	case opAdd:
		b.add(c.key, c.val)
	case opRemove:
		b.remove(c.key)
	case opGet:
		v := b.get(c.key)
		if c.none = v == nil; !c.none {
			c.res = v.(int)
		}
	case opContains:
		c.res = flag(b.contains(c.key))
	case opSize:
		c.res = b.size()
	case opEmpty:
		c.res = flag(b.empty())
	case opClear:
		b.clear()
	case opValues:
		for _, v := range b.values() {
			c.vals = append(c.vals, v.(int))
		}
	}
	clock++
	c.end = clock
}

// apply makes the call on the model and tells whether it returns the same: whether it can at all, and
// the condition on the values.
func (c *call) apply(m *model, max int, replaces bool) (bool, bool) {
	i := m.find(c.key)
	switch c.op {
	case opAdd:
		if i >= 0 {
			if replaces {
				l := append([]entry(nil), m.list...)
				l[i].v = c.val
				m.list = l
			}
			return true, true
		}
		if len(m.list) == max {
			m.drop(0)
		}
		m.list = append(append([]entry(nil), m.list...), entry{c.key, c.val})
	case opRemove:
		if i >= 0 {
			m.drop(i)
		}
	case opGet:
		if i < 0 || c.none {
			return c.none == (i < 0), true
		}
		return true, c.res == m.list[i].v
	case opContains:
		return c.res == flag(i >= 0), true
	case opSize:
		return c.res == len(m.list), true
	case opEmpty:
		return c.res == flag(len(m.list) == 0), true
	case opClear:
		m.list = nil
	case opValues:
		if len(c.vals) != len(m.list) {
			return false, false
		}
		// the same values in some order
		return true, permuted(m.list, c.vals)
	}
	return true, true
}

func permuted(l []entry, vals []int) bool {
	if len(l) == 0 {
		return true
	}
	ok := false
	for i := range vals {
		rest := append(append([]int(nil), vals[:i]...), vals[i+1:]...)
		ok = vrt.Or(ok, vrt.And(vals[i] == l[0].v, permuted(l[1:], rest)))
	}
	return ok
}

// explained: some order of the calls that keeps what ended before what started gives these results.
func explained(m model, calls []*call, done []bool, max int, replaces bool) bool {
	all, some := true, false
	for i, c := range calls {
		if done[i] {
			continue
		}
		all = false
		first := true
		for j, d := range calls {
			if !done[j] && d.end < c.start {
				first = false
			}
		}
		if !first {
			continue
		}
		n := m
		can, cond := c.apply(&n, max, replaces)
		if !can {
			continue
		}
		done[i] = true
		some = vrt.Or(some, vrt.And(cond, explained(n, calls, done, max, replaces)))
		done[i] = false
	}
	return vrt.Or(all, some)
}

func pickCall(b *box, base, val int) *call {
	c := menu[vrt.Choose("op", len(menu))]
	c.key += base
	c.val = val
	if c.op == opRemove && b.remove == nil || c.op == opGet && b.get == nil || c.op == opValues && b.values == nil {
		vrt.Assume(false)
	}
	return &c
}

func threads(n []int, switches int) {
	kind := vrt.Choose("container", kinds)
	max := 2
	vrt.Race()
	b := open(kind, max)
	m := model{}
	base := int(vrt.I64("base"))
	for k := 1; k <= 2; k++ {
		c := &call{op: opAdd, key: base + k, val: int(vrt.I64("value"))}
		c.run(b)
		c.apply(&m, max, b.replaces)
	}
	var calls []*call
	var ids []int
	progs := make([][]*call, len(n))
	for i, l := range n {
		for j := 0; j < l; j++ {
			c := pickCall(b, base, int(vrt.I64("value")))
			progs[i] = append(progs[i], c)
			calls = append(calls, c)
		}
	}
	changes := false
	for _, c := range calls {
		changes = changes || c.op <= opRemove || c.op == opClear
	}
	vrt.Assume(changes)
	for i := range n {
		p := progs[i]
		ids = append(ids, vrt.Spawn(func() {
			for _, c := range p {
				c.run(b)
			}
		}))
	}
	vrt.Explore(switches)
	vrt.Join(ids...)
	vrt.NoExplore()
	// what is left
	for _, c := range menu[4:] {
		if c.op == opGet && b.get == nil || c.op == opValues && b.values == nil {
			continue
		}
		e := c
		e.key += base
		e.run(b)
		calls = append(calls, &e)
	}
	vrt.Assert(explained(m, calls, make([]bool, len(calls)), max, b.replaces), "no sequential order of the operations explains what they returned")
}

// H_Two: two threads, two operations and one.
func H_Two() {
	vrt.Bound("lra, cachemap, cachemap2, cacheset of capacity 2 holding 2 keys, integer keys above a symbolic base, symbolic values; every pair of operation sequences of length 2 and 1 with up to 2 (3) preemptions (thorough also 2 and 2 with 1) at lock operations; data races on every schedule explored")
	if vrt.Thorough() {
		if vrt.Choose("deep", 2) == 0 {
			threads([]int{2, 2}, 1)
		} else {
			threads([]int{2, 1}, 3)
		}
	} else {
		threads([]int{2, 1}, 2)
	}
}

// H_Three: three threads, one operation each.
func H_Three() {
	vrt.Bound("three threads with one operation each, up to 1 (2) preemptions")
	if vrt.Thorough() {
		threads([]int{1, 1, 1}, 2)
	} else {
		threads([]int{1, 1, 1}, 1)
	}
}
