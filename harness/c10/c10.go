// Package c10: wildcard patterns match exactly as globs.
package c10

import (
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt common/util

// glob is the definition, as one term over the bytes of both strings: '*' stands for any text.
func glob(p, t string) bool {
	row := make([]bool, len(t)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		star := p[i] == '*'
		next := make([]bool, len(t)+1)
		next[0] = vrt.And(star, row[0])
		for j := 1; j <= len(t); j++ {
			any := vrt.And(star, vrt.Or(row[j], next[j-1]))
			one := vrt.And(vrt.Not(star), vrt.And(p[i] == t[j-1], row[j-1]))
			next[j] = vrt.Or(any, one)
		}
		row = next
	}
	return row[len(t)]
}

func noComma(s string) {
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] != ',')
	}
}

func check(list, t string, want bool) {
	m := util.NewCommaSeparatedChainedStrMatcher(list)
	got := m.IsMatch(t)
	vrt.ObsInt("match", vrt.Ite(got, 1, 0))
	vrt.Assert(got == want, "pattern match differs from the glob")
	if got {
		vrt.Cover("match")
	} else {
		vrt.Cover("no match")
	}
}

// H_One: any single pattern against any string.
func H_One() {
	vrt.MustCover("match")
	vrt.MustCover("no match")
	np, nt := 8, 8
	if vrt.Thorough() {
		np, nt = 11, 12
	}
	vrt.Bound("every pattern of up to 8 (thorough 11) and every non-empty string of up to 8 (thorough 12) arbitrary bytes")
	p := vrt.StringUpTo("pattern", np)
	noComma(p)
	t := vrt.String("target", 1+vrt.Choose("n", nt))
	check(p, t, glob(p, t))
}

// H_Shapes: longer patterns with the stars at chosen places.
func H_Shapes() {
	vrt.MustCover("match")
	vrt.MustCover("no match")
	vrt.Bound("patterns with one to four stars between parts of 0 to 2 (two parts: 3) arbitrary bytes, strings of up to 8 (thorough 12)")
	shape := vrt.Choose("shape", 7)
	part := func(max int) string {
		s := vrt.StringUpTo("part", max)
		for i := 0; i < len(s); i++ {
			vrt.Assume(vrt.And(s[i] != '*', s[i] != ','))
		}
		return s
	}
	p := ""
	switch shape {
	case 0:
		p = part(3) + "*" + part(3)
	case 1:
		p = "*" + part(3) + "*"
	case 2:
		p = "*" + part(2) + "*" + part(2)
	case 3:
		p = part(2) + "*" + part(2) + "*"
	case 4:
		p = "*" + part(2) + "*" + part(2) + "*"
	case 5:
		p = part(1) + "*" + part(1) + "*" + part(1)
	case 6:
		p = "*" + part(1) + "*" + part(1) + "*" + part(1) + "*"
	}
	n := 8
	if vrt.Thorough() {
		n = 12
	}
	t := vrt.String("target", 1+vrt.Choose("n", n))
	check(p, t, glob(p, t))
}

// H_List: a list matches when one of its patterns does.
func H_List() {
	vrt.MustCover("match")
	vrt.MustCover("no match")
	vrt.Bound("lists of two and three patterns of up to 3 arbitrary bytes, strings of up to 5")
	p, q := vrt.StringUpTo("p", 3), vrt.StringUpTo("q", 3)
	noComma(p)
	noComma(q)
	t := vrt.String("target", 1+vrt.Choose("n", 5))
	list := p + "," + q
	want := vrt.Or(glob(p, t), glob(q, t))
	if vrt.Choose("three", 2) == 1 {
		r := vrt.String("r", 1)
		noComma(r)
		list += "," + r
		want = vrt.Or(want, glob(r, t))
	}
	check(list, t, want)
}

// H_NoPattern: a matcher without patterns matches nothing.
func H_NoPattern() {
	vrt.MustCover("no match")
	vrt.Bound("the empty list, strings of up to 4 bytes")
	check("", vrt.String("target", 1+vrt.Choose("n", 4)), false)
}

// H_Again: what a matcher was asked before makes no difference, nor do other matchers.
func H_Again() {
	vrt.MustCover("match")
	vrt.MustCover("no match")
	vrt.Bound("two lists of two patterns each of up to 3 bytes, asked in turn for two strings of up to 3 bytes and for the first one again")
	l, m := "a*"+vrt.String("p", 1)+",b", vrt.StringUpTo("q", 2)+",*c"
	noComma(l[2:3])
	noComma(m[:len(m)-3])
	s, t := vrt.String("s", 1+vrt.Choose("n", 3)), vrt.String("t", 1+vrt.Choose("m", 3))
	want := func(list, t string) bool {
		for i := 0; i < len(list); i++ {
			if list[i] == ',' {
				return vrt.Or(glob(list[:i], t), glob(list[i+1:], t))
			}
		}
		return false
	}
	lm, mm := util.NewCommaSeparatedChainedStrMatcher(l), util.NewCommaSeparatedChainedStrMatcher(m)
	for i, x := range []string{s, t, s, t} {
		p, q := lm.IsMatch(x), mm.IsMatch(x)
		vrt.Assert(vrt.And(p == want(l, x), q == want(m, x)), "pattern match differs from the glob when asked again")
		if p && i == 1 {
			vrt.Cover("match")
		} else if i == 1 {
			vrt.Cover("no match")
		}
	}
}

// H_Together: a matcher may be asked by several goroutines.
func H_Together() {
	vrt.Bound("two goroutines asking one matcher for two strings of 2 bytes, every statement a possible switch, 1 (2) switches; data races")
	list := "a*,*b,c*d"
	m := util.NewCommaSeparatedChainedStrMatcher(list)
	s, t := vrt.String("s", 2), vrt.String("t", 2)
	want := func(t string) bool { return vrt.Or(glob("a*", t), vrt.Or(glob("*b", t), glob("c*d", t))) }
	var p bool
	th := vrt.Spawn(func() { p = m.IsMatch(s) })
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Race()
	vrt.Explore(n)
	q := m.IsMatch(t)
	vrt.Join(th)
	vrt.NoExplore()
	vrt.Assert(vrt.And(p == want(s), q == want(t)), "pattern match differs from the glob when asked by two goroutines")
}

// H_Many: long lists, long patterns and long strings.
func H_Many() {
	vrt.MustCover("match")
	vrt.MustCover("no match")
	vrt.Bound("lists of 40 patterns of 3 bytes, one of them with two symbolic bytes, against 3 symbolic bytes; a pattern of 300 bytes with a star and one symbolic byte against strings of 300 bytes that differ from it in one symbolic byte")
	if vrt.Choose("long", 2) == 0 {
		list, at := "", vrt.Choose("at", 40)
		var ps []string
		for i := 0; i < 40; i++ {
			p := string([]byte{byte('A' + i/10), byte('0' + i%10), '*'})
			if i == at {
				p = "z" + vrt.String("p", 2)
				noComma(p)
			}
			if i > 0 {
				list += ","
			}
			list += p
			ps = append(ps, p)
		}
		t := vrt.String("target", 3)
		want := false
		for _, p := range ps {
			want = vrt.Or(want, glob(p, t))
		}
		check(list, t, want)
		return
	}
	b := make([]byte, 300)
	for i := range b {
		b[i] = byte('a' + i%7)
	}
	at, where := []int{0, 1, 100, 255, 256, 299}[vrt.Choose("star", 6)], []int{0, 60, 254, 257, 299}[vrt.Choose("where", 5)]
	p := append([]byte{}, b...)
	p[at] = '*'
	b[where] = vrt.U8("c")
	vrt.Assume(b[where] != '*')
	want := vrt.Or(where == at, b[where] == byte('a'+where%7))
	if where == 299 {
		want = b[where] == byte('a'+where%7)
	}
	if where == at {
		want = true
	}
	check(string(p), string(b), want)
}
