// Package c21: the configuration.
package c21

import (
	"errors"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/os"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

var denied = errors.New("denied")

const path = "/etc/scouter.conf"

func setup() *conf.Configure {
	vrt.SetLimit(30000000)
	common.RegisterSendPanicF(func(m string) { vrt.Fail("panic inside the agent: " + m) })
	os.Setenv("SCOUTER_CONFIG", path)
	vrt.RunFor(100)
	return conf.GetInstance()
}

// same compares texts of possibly symbolic bytes without forking.
func same(a, b string) bool { return hcommon.Same([]byte(a), []byte(b)) }

// integer is the number a text stands for.
func integer(s string) (v int64, ok bool) {
	i, neg := 0, false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i++
	}
	if i == len(s) {
		return 0, false
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := int64(s[i] - '0')
		if v < (-9223372036854775808+d)/10 || v == (-9223372036854775808+d)/10 && v*10-d > 0 {
			return 0, false
		}
		v = v*10 - d
	}
	if !neg {
		if v == -9223372036854775808 {
			return 0, false
		}
		v = -v
	}
	return v, true
}

func boolean(s string) bool {
	l := []byte(s)
	for i := range l {
		if l[i] >= 'A' && l[i] <= 'Z' {
			l[i] += 32
		}
	}
	t := string(l)
	return t == "1" || t == "true" || t == "yes" || t == "on"
}

// check compares the configuration in use with a given value, "" meaning none.
func check(c *conf.Configure, e entry, given string) {
	switch e.kind {
	case 2:
		want, ok := integer(given)
		if !ok {
			want, _ = integer(e.def)
		}
		vrt.Assert(e.num(c) == want, "the number in use is not the configured one: "+e.key)
	case 3:
		want := given
		if want == "" {
			want = e.def
		}
		vrt.Assert(e.flag(c) == boolean(want), "the flag in use is not the configured one: "+e.key)
	default:
		want := given
		if len(want) == 0 {
			want = e.def
		}
		vrt.Assert(same(e.text(c), want), "the text in use is not the configured one: "+e.key)
	}
}

func shown(e entry, given string) string {
	switch e.kind {
	case 2:
		if _, ok := integer(given); !ok {
			return e.def
		}
	case 3:
		if given != "" {
			if boolean(given) {
				return "true"
			}
			return "false"
		}
	}
	if given == "" {
		return e.def
	}
	return given
}

func other(e entry, k int) string {
	switch e.kind {
	case 2:
		return []string{"17", "-5"}[k]
	case 3:
		if e.def == "true" {
			return []string{"false", "no"}[k]
		}
		return []string{"yes", "On"}[k]
	}
	return []string{"some=text", "/other,*"}[k]
}

// H_Keys: every key, in the file and in the environment.
func H_Keys() {
	vrt.Bound("each of the 63 keys, absent, empty or given in the file and in the environment, next to another key that is given in the other place")
	c := setup()
	i := vrt.Choose("key", len(entries))
	e, o := entries[i], entries[(i+1)%len(entries)]
	file, given := "", ""
	switch vrt.Choose("env", 3) {
	case 1:
		os.Setenv(e.key, "")
	case 2:
		given = other(e, 0)
		os.Setenv(e.key, given)
	}
	switch vrt.Choose("file", 3) {
	case 1:
		file, given = e.key+"=\n", ""
	case 2:
		given = other(e, 1)
		file = e.key + "=" + given + "\n"
	}
	ogiven := other(o, 1)
	if vrt.Choose("other", 2) == 1 {
		file += o.key + "=" + ogiven + "\n"
	} else {
		os.Setenv(o.key, ogiven)
	}
	os.Put(path, []byte(file))
	vrt.RunFor(5100)
	for _, x := range entries {
		switch x.key {
		case e.key:
			check(c, x, given)
		case o.key:
			check(c, x, ogiven)
		default:
			check(c, x, "")
		}
	}
	vrt.Assert(c.ObjName == "/host/"+c.ObjNameSimple, "the object's name does not tell host and name")
	vrt.Assert(c.ObjHash == hcommon.Crc(c.ObjName), "the object's hash is not that of its name")
	listed(e, given, o, ogiven)
}

// listed checks the description of the configuration in use.
func listed(e entry, given string, o entry, ogiven string) {
	m := conf.GetConfigureDescMap()
	vrt.Assert(m.Size() == len(entries), "the configuration's keys are not all listed once")
	for _, x := range entries {
		v, ok := m.Get(x.key)
		vrt.Assert(ok, "a key is not listed")
		d := v.(conf.ConfigureDesc)
		g := ""
		switch x.key {
		case e.key:
			g = given
		case o.key:
			g = ogiven
		}
		vrt.Assert(d.Key == x.key && d.Value == shown(x, g), "a key is listed with another value than the one in use")
		vrt.Assert(d.DefaultValue == x.def && int(d.ValueType) == x.kind, "a key is listed with another default or type")
	}
}

// H_Numbers: every short text as a number.
func H_Numbers() {
	vrt.Bound("every text of 1 to 3 (thorough: 5) characters of '0', '1', '7', '9', '-', '+', 'x', '_', and 14 longer ones, as a number in the file or the environment")
	c := setup()
	n := 3
	if vrt.Thorough() {
		n = 5
	}
	e := entries[5]
	vrt.Assert(e.key == "net_collector_udp_port", "table")
	v := ""
	if vrt.Choose("long", 2) == 0 {
		v = vrt.StringOver("v", 1+vrt.Choose("len", n), "0179-+x_")
	} else {
		long := []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x10", "1e3", "1.0", "1,000", "00000000000000000000012", "2147483648", "65536", "1 2", "six", "99999999999999999999999"}
		v = long[vrt.Choose("text", len(long))]
	}
	if vrt.Choose("env", 2) == 1 {
		os.Setenv(e.key, v)
		os.Put(path, nil)
	} else {
		os.Put(path, []byte(e.key+"="+v+"\n"))
	}
	vrt.RunFor(5100)
	check(c, e, v)
}

// H_Flags: every short text as a flag.
func H_Flags() {
	vrt.Bound("every text of 1 to 4 letters, digits and other ASCII characters as a flag in the file, for a flag whose default is true and one whose default is false")
	c := setup()
	v := vrt.String("v", 1+vrt.Choose("len", 4))
	for i := range v {
		vrt.Assume(vrt.And(v[i] > ' ', vrt.And(v[i] < 127, vrt.And(v[i] != '$', vrt.And(v[i] != '\\', v[i] != '=')))))
		vrt.Assume(vrt.And(v[i] != '#', vrt.And(v[i] != '!', v[i] != ':')))
	}
	t, f := entries[12], entries[2]
	vrt.Assert(t.def == "true" && f.def == "false", "table")
	os.Put(path, []byte(t.key+"="+v+"\n"+f.key+"="+v+"\n"))
	vrt.RunFor(5100)
	on := false
	for _, w := range []string{"1", "on", "yes", "true"} {
		if len(w) == len(v) {
			all := true
			for i := range w {
				all = vrt.And(all, vrt.Or(v[i] == w[i], vrt.And(w[i] > '9', v[i] == w[i]-32)))
			}
			on = vrt.Or(on, all)
		}
	}
	vrt.Assert(t.flag(c) == on && f.flag(c) == on, "a flag is not what is configured")
}

// H_Environment: any text in the environment.
func H_Environment() {
	vrt.Bound("every value of up to 4 (thorough: 7) characters of 'a', '=', ':', ' ', '/' in the environment; other entries with any number of '=' before and after it")
	c := setup()
	n := 4
	if vrt.Thorough() {
		n = 7
	}
	v := vrt.StringOver("v", vrt.Choose("len", n+1), "a=: /")
	odd := []string{"", "ODD", "=", "=C:=C:\\x", "A==", "ODD=", "P=${", "P=${P}"}[vrt.Choose("odd", 8)]
	if odd != "" && vrt.Choose("first", 2) == 1 {
		os.RawEnv = []string{odd}
	} else if odd != "" {
		os.RawEnvEnd = []string{odd}
	}
	e := entries[1]
	vrt.Assert(e.key == "obj_type", "table")
	os.Setenv(e.key, v)
	os.Put(path, nil)
	r := vrt.Catch(func() { c.Refresh() })
	vrt.Assert(r == nil, "an entry of the environment makes the agent panic")
	check(c, e, v)
}

type runs struct {
	n    int
	seen string
	c    *conf.Configure
}

func (r *runs) Run() { r.n++; r.seen = r.c.ObjType }

type named struct {
	n int
	c *conf.Configure
}

func (r *named) Run() {
	r.n++
	vrt.Assert(r.c.ObjHash == hcommon.Crc(r.c.ObjName), "the object's hash is not that of its name when a change is told")
}

// H_Follow: the configuration follows the file.
func H_Follow() {
	vrt.Bound("histories of 3 (thorough: 4) steps out of: new contents with any time (in ns) from 1970 to 2106 other than those of the contents in use and before, removed, put back as it was, unreadable with and without a change, undecodable, nothing; checked 5 s after each and again 5 s later")
	c := setup()
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	o, nm := &runs{c: c}, &named{c: c}
	conf.AddToConfObserver("h", o)
	conf.AddObjChangedObserver(nm)
	texts := []string{"obj_type=t0\nobj_name=n0\n", "obj_type=t1\nobj_name=n0\n", "obj_type=t2\n"}
	types, names := []string{"t0", "t1", "t2"}, []string{"n0", "n0", "go1"}
	at, undecodable, present := 0, false, true // the file: its text, and whether it is there
	mtime := int64(1700000000000000000)
	applied := mtime // the time of the file whose contents are in use
	other := func() int64 {
		t := vrt.I64("mtime")
		vrt.Assume(vrt.And(t > 0, t < 1<<62)) // the zero Time is 0 in the engine
		vrt.Assume(vrt.And(t != mtime, t != applied))
		return t
	}
	put := func(t int64) {
		mtime = t
		text := texts[at]
		if undecodable {
			text = "obj_type=${\nobj_name=bad\n"
		}
		os.Put(path, []byte(text))
		os.SetMtime(path, mtime)
		present = true
	}
	put(mtime)
	typ, name := "t0", "n0" // what is in use
	current := true         // it is that of the file
	fail := func(op string) {
		os.Fault = func(o, p string) error {
			if o == op && p == path {
				return denied
			}
			return nil
		}
	}
	vrt.RunFor(5100)
	for i := 0; i < n; i++ {
		told, wasName := nm.n, c.ObjName
		unreadable, n0 := false, o.n
		os.Fault = nil
		change := vrt.Choose("change", 7)
		switch change {
		case 0:
			at, undecodable = (at+1)%3, false
			put(other())
		case 1:
			os.Remove(path)
			present = false
		case 2:
			put(mtime)
		case 3:
			at, undecodable = (at+1)%3, false
			put(other())
			unreadable = true
			fail([]string{"open", "stat", "read"}[vrt.Choose("op", 3)])
		case 4:
			undecodable = true
			put(other())
		case 5:
			fail([]string{"open", "stat"}[vrt.Choose("op", 2)])
			unreadable = true
		}
		vrt.RunFor(5100)
		switch {
		case unreadable || present && undecodable:
		case present:
			typ, name, applied = types[at], names[at], mtime
		default:
			typ, name = "golang", "go1"
		}
		vrt.Assert(c.ObjType == typ && c.ObjNameSimple == name, "the configuration in use is not that of the file")
		vrt.Assert(o.seen == typ, "a change is not told to the observers")
		vrt.Assert(c.ObjName == "/host/"+name && c.ObjHash == hcommon.Crc(c.ObjName), "the object's hash is not that of its name")
		vrt.Assert((wasName != c.ObjName) == (nm.n > told), "a change of the object's name is not told, or none is")
		if change >= 5 && current {
			vrt.Assert(o.n == n0, "a change is told to the observers though there is none")
		}
		current = present && !undecodable && (!unreadable || change == 5 && current)
		before := o.n
		vrt.RunFor(5100)
		vrt.Assert(c.ObjType == typ && c.ObjNameSimple == name, "the configuration changes though the file does not")
		vrt.Assert(!present || o.n == before, "a change is told to the observers though there is none")
	}
}

// H_Commands: the collector reads and writes the configuration.
func H_Commands() {
	vrt.Bound("the five configuration commands; texts with up to 3 arbitrary letters; a file that cannot be written or read; commands without a text or with any 32-bit number instead")
	c := setup()
	os.Setenv("SCOUTER_AGENT_HOME", "/r")
	s := hcommon.NewServer()
	strace.StartTracingMode()
	old := "# comment\nobj_type=x\n"
	os.Put(path, []byte(old))
	c.Refresh()
	s.Hello()
	v := s.Call("GET_CONFIGURE_WAS")
	vrt.Assert(v != nil && v.Get("agentConfig") != nil && same(v.Get("agentConfig").S, old), "the text of the configuration is not handed out")
	keys := v.Get("configKey").List
	vrt.Assert(len(keys) == len(entries), "the configuration's keys are not all listed once")
	for _, e := range entries {
		n := 0
		for i := range keys {
			if keys[i].S == e.key {
				n++
			}
		}
		vrt.Assert(n == 1, "the configuration's keys are not all listed once")
	}
	val := vrt.StringOver("v", vrt.Choose("len", 4), "ab=")
	text := "# new\nobj_type=" + val + "\nudp_max_bytes=1234\n"
	k := vrt.Choose("fault", 5)
	os.Fault = func(op, p string) error {
		if p == path && (k == 1 && op == "openw" || k == 2 && op == "write") {
			return denied
		}
		return nil
	}
	switch k {
	case 3:
		v = s.Call("SET_CONFIGURE_WAS", hcommon.Param{Key: "config", Text: text})
	case 4:
		v = s.Call("SET_CONFIGURE_WAS", hcommon.Param{Key: "setConfig", Num: int64(vrt.U32("n")) + 1})
	default:
		v = s.Call("SET_CONFIGURE_WAS", hcommon.Param{Key: "setConfig", Text: text})
	}
	os.Fault = nil
	vrt.Assert(v != nil && v.Get("result") != nil, "a new configuration is not answered")
	done := v.Get("result").B || v.Get("result").S == "true"
	vrt.Assert(done == (k == 0), "the answer does not tell whether the configuration was saved")
	if k == 2 {
		return // what is in the file then is unknown
	}
	typ := "x"
	if done {
		typ = val
		if typ == "" {
			typ = "golang"
		}
		b, _ := os.Get(path)
		vrt.Assert(same(string(b), text), "the file does not get the new configuration")
		vrt.Assert(c.UDPMaxBytes == 1234, "a new configuration is not applied at once")
	} else {
		b, _ := os.Get(path)
		vrt.Assert(string(b) == old, "a configuration that is not saved changes the file")
	}
	vrt.Assert(same(c.ObjType, typ), "a new configuration is not applied at once")
	v = s.Call("LIST_CONFIGURE_WAS")
	ks, vs, ds := v.Get("key").List, v.Get("value").List, v.Get("default").List
	vrt.Assert(len(ks) == len(entries) && len(vs) == len(ks) && len(ds) == len(ks), "the configuration's keys are not all listed once")
	types, descs := s.Call("CONFIGURE_VALUE_TYPE"), s.Call("CONFIGURE_DESC")
	vrt.Assert(len(types.Keys) == len(entries) && len(descs.Keys) == len(entries), "the configuration's keys are not all listed once")
	for _, e := range entries {
		n := 0
		for i := range ks {
			if ks[i].S != e.key {
				continue
			}
			n++
			want := e.def
			switch {
			case e.key == "obj_type":
				want = typ
			case e.key == "udp_max_bytes" && done:
				want = "1234"
			}
			vrt.Assert(same(vs[i].S, want), "a key is listed with another value than the one in use")
			vrt.Assert(ds[i].S == e.def, "a key is listed with another default")
		}
		vrt.Assert(n == 1, "the configuration's keys are not all listed once")
		vrt.Assert(types.Get(e.key) != nil && types.Get(e.key).N == int64(e.kind), "a key is listed with another type")
		vrt.Assert(descs.Get(e.key) != nil, "a key has no description")
	}
}

// H_Path: where the file is.
func H_Path() {
	vrt.Bound("the file named by SCOUTER_CONFIG, by scouter.config, under SCOUTER_AGENT_HOME, or under the working directory, each there or not")
	c := setup()
	os.Unsetenv("SCOUTER_CONFIG")
	places := []string{"/a/one.conf", "/b/two.conf", "/h/conf/scouter.conf", "/work/scouter/conf/scouter.conf"}
	for i, p := range places {
		os.Put(p, []byte("obj_type=t"+string(rune('0'+i))+"\n"))
	}
	want := 3
	if vrt.Choose("home", 2) == 1 {
		os.Setenv("SCOUTER_AGENT_HOME", "/h")
		want = 2
	}
	if vrt.Choose("prop", 2) == 1 {
		os.Setenv("scouter.config", "/b/two.conf")
		want = 1
	}
	if vrt.Choose("env", 2) == 1 {
		os.Setenv("SCOUTER_CONFIG", "/a/one.conf")
		want = 0
	}
	typ := "t" + string(rune('0'+want))
	if vrt.Choose("gone", 2) == 1 {
		os.Remove(places[want])
		typ = "golang"
	}
	vrt.RunFor(5100)
	vrt.Assert(c.ObjType == typ, "the configuration is not read from its file")
	vrt.Assert(conf.LoadConfigText() == "" && typ == "golang" || conf.LoadConfigText() == "obj_type="+typ+"\n", "the text of the configuration is not that of its file")
}
